#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLC = "explicit TLA+ specification checked with TLC; "
CONF = TLC + "every recorded parse of generated parsers compared with the denotation (Peg.tla)"
TRACE = TLC + "recorded event traces of generated parsers validated step by step against the machine (PegMachine.tla)"
BOUND = "Sampled (seeded) and systematic bounded families of grammars and inputs compiled with the working tree's macro; TLC decides each case exactly. Trusts the renderer (lib/gram.py), the recording helpers (harness/sup.rs) and TLC."
ANA = "Bounded families and random grammars; TLC computes the verdict from the specification. Trusts the renderer (lib/anagram.py) and the reading of the error messages."
C = {
 "C06": (TLC + "positions, renderings and expected sets of generated parsers compared with Text.tla", "Sampled and systematic inputs; TLC decides each case exactly. Trusts the recording helpers and TLC."),
 "C01": (CONF, BOUND), "C02": (CONF + " and traces of the input accesses", BOUND), "C03": (CONF, BOUND), "C04": (CONF, BOUND), "C05": (CONF, BOUND),
 "C07": (CONF, BOUND), "C08": (CONF + ", for differently cached variants of the same grammar; evaluation counts against the specification's bound", BOUND),
 "C09": (CONF + "; long inputs against the seed-growing machine", BOUND), "C10": (CONF, BOUND), "C11": (CONF + ", for templates and their inlined forms", BOUND),
 "C12": (TLC + "verdicts of the working tree's generator on bounded-exhaustive and random grammars compared with PegAnalysis.tla; accepted grammars run", ANA),
 "C13": (TLC + "verdicts of the working tree's generator on bounded-exhaustive and random grammars compared with PegAnalysis.tla; accepted grammars run", ANA),
 "C14": (TLC + "compiler diagnostics on grammars with injected faults compared with PegAnalysis.tla", ANA),
 "C17": (TLC + "readings of grammar texts by the working tree's grammar parser compared with MetaGrammar.tla, and equivalent writings of the same grammar with each other", "Systematic and random grammar texts, well-formed and damaged; TLC decides membership and the expected set at the furthest point for each. Trusts the tokenizer (lib/metatext.py) and the reading of the error messages."),
 "C18": (TLC + "schedules of Session.tla driven through generated parsers, and the recorded sessions validated against it (SessionTrace.tla)", "All schedules of small sessions (nested, aborted, two threads) with sampled calls, switching where user code is reached; free-running threads besides. Trusts the driver (harness/sup.rs)."),
 "C20": (TLC + "the compiled and the regenerated grammar parser compared on the same texts and each with MetaGrammar.tla; regeneration to a fixed point", "Sampled and systematic grammar texts. Trusts the tokenizer and the reading of the error messages."),
 "C15": (TRACE, BOUND), "C16": (TRACE + " and outcomes with and without the feature compared", BOUND), "C19": (CONF, BOUND),
}
NA = {}
import sys
sys.path.insert(0, os.path.join(V, "tools"))
try: from claims import EXTRA; C.update(EXTRA)
except ImportError: pass
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=[
    dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, technique=C[i][0], level="model_checking", level_note=C[i][1]) for i in ids if i in C],
    not_applicable=[dict(property=i, reason=NA.get(i, "the check is not built yet")) for i in ids if i not in C],
    hooks=dict(guard="none", enable="no hooks are needed", source_commits=[]))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
