#!/usr/bin/env python3
"""check.py <property id>: decides one property.  Exit 0 held, 1 violated, 2 the check itself failed."""
import sys, os, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from repo import ToolError

def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    from core import Ctx
    import importlib
    fn = None
    for m in ("parsechecks", "textchecks", "analysischecks", "metachecks", "sessionchecks"):
        try: mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m: raise
            continue
        fn = fn or getattr(mod, prop.lower(), None)
    if fn is None:
        print("no check for", prop); return 2
    try: return fn(Ctx(prop, tier if tier in ("quick", "thorough") else "quick", seed))
    except ToolError as e:
        print("TOOL ERROR:", e); return 2
    except Exception:
        traceback.print_exc(); return 2

sys.exit(main())
