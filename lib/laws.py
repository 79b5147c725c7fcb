"""Theorems about the specification itself, on enumerated families (no implementation involved)."""
from core import *
from anagram import *
import conform

BVAL = {"<2>": (bi(2), bi(2)), "<1,>": (bi(1), NB), "<,3>": (NB, bi(3)), "<1,3>": (bi(1), bi(3)), "<{1+1}>": (bi(2), bi(2)), "<{N}, >": (bi(2), NB), "<, {N}>": (NB, bi(2))}

class Odd(Exception): pass

def to_peg(e):
    """An expression of the untyped grammars in the form of gram.py."""
    k = e["k"]
    if k == "rep":
        q = rep(to_peg(e["n"]), e["min"], e["max"], to_peg(e["sep"]) if e["sep"] else None, e["form"])
        if e.get("bnd"): q["min"], q["max"] = BVAL[e["bnd"]]
        return q
    if k == "seq":
        ls = {x["l"] for x in e["es"]}
        return dict(e, es=[dict(x, e=to_peg(x["e"])) for x in e["es"]], a=e["a"] if e["a"]["k"] == "none" else dict(e["a"], args=[]))
    if k == "alt": return dict(e, ns=[to_peg(x) for x in e["ns"]])
    if k in ("opt", "and", "not", "sl", "quiet"): return dict(e, n=to_peg(e["n"]))
    if k == "call":
        if e.get("gen") or e["args"]: raise Odd()
        return call(e["r"])
    if k == "aprec":
        wrap, lv = "", []
        for n, ops in enumerate(e["levels"]):
            out = []
            for op in ops:
                mk = [i for i, x in enumerate(op) if x["e"]["k"] == "mark"]
                mid = [dict(x, e=to_peg(x["e"])) for i, x in enumerate(op) if i not in mk]
                v = [op[i]["e"]["v"] for i in mk]
                o = dict(es=mid, t="o", args=[], la="", ra="", assoc="l")
                if len(op) == 3 and mk == [1] and op[0]["e"]["k"] == op[2]["e"]["k"] == "pos":
                    if n or len(ops) > 1: raise Odd()
                    wrap = "w"; continue
                if not mk: o["ki"] = "atom"
                elif mk == [0, len(op) - 1]: o.update(ki="infix", assoc="l" if v[0] == "(@)" else "r"); 
                elif mk == [0]: o.update(ki="postfix")
                elif mk == [len(op) - 1]: o.update(ki="prefix", assoc="r" if v[0] == "(@)" else "l")
                else: raise Odd()
                if len(mk) == 2 and len(op) < 3 or not mid: raise Odd()
                if o["ki"] == "infix" and sorted(v) != ["(@)", "@"]: raise Odd()
                out.append(o)
            if wrap and not lv and not out: continue
            lv.append(out)
        return {"k": "prec", "wrap": wrap, "levels": lv}
    if k == "mark": raise Odd()
    return e

SOUND_CFG = """SPECIFICATION Spec
INVARIANTS NeverInsideItself Balanced Positions Agrees
CHECK_DEADLOCK FALSE
"""

def sound(ctx, tag, gs, alphabet, maxlen, budget=3000):
    """gs: untyped grammars (rules without parameters)."""
    words, cur = [""], [""]
    for _ in range(maxlen):
        cur = [x + c for x in cur for c in alphabet]
        words += cur
    grams, an = [], []
    for g in gs:
        try: rules = [Rule(r.name, None, to_peg(r.body), [], r.cache) for r in g if not (r.params or r.generics)]
        except Odd: continue
        if len(rules) != len(g) or len({r.name for r in rules}) < len(rules): continue
        names_ = {r.name for r in rules}
        if any(e["k"] == "call" and e["r"] not in names_ for r in rules for e in walk(r.body)): continue
        grams.append(flatten(Grammar("g", rules), [(r.name, 1) for r in rules])); an.append(aflatten(g))
    cases = [dict(g=n + 1, e=e + 1, i=conform.mkinput(w, "str"), id=0) for n in range(len(grams)) for e in range(len(grams[n]["ents"])) for w in words]
    for n, c in enumerate(cases): c["id"] = n
    work = os.path.join(ctx.work, tag); os.makedirs(work, exist_ok=True)
    per = (len(grams) + NCPU - 1) // NCPU
    def one(k):
        lo, hi = k * per, min((k + 1) * per, len(grams))
        cs = [dict(c, g=c["g"] - lo) for c in cases if lo < c["g"] <= hi]
        if not cs: return None
        path = os.path.join(work, "s%d.json" % k)
        json.dump(dict(grammars=grams[lo:hi], an=an[lo:hi], cases=cs, budget=budget, peek=200), open(path, "w"))
        return tla.tlc_ok(tla.tlc("Sound", SOUND_CFG, os.path.join(work, "t%d" % k), timeout=1500 if ctx.thorough else 600, defs={"CORPUS": path}), "Sound chunk %d" % k)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex: rs = [r for r in ex.map(one, range(NCPU)) if r]
    st = {}
    for r in rs:
        for l in r.lines("@MIS"): raise ToolError("the specification accepts a grammar on which its machine does not end: " + l)
        for l in r.lines("@ST"):
            f = [int(x) for x in l.split()]; st[f[0]] = f[1:]
    if len(st) != len(cases): raise ToolError("Sound looked at %d of %d cases" % (len(st), len(cases)))
    fine = sum(1 for v in st.values() if not v[0] and not v[1])
    ctx.count("spec_runs_of_accepted_grammars", fine)
    ctx.count("spec_runs_of_rejected_grammars_without_end", sum(1 for v in st.values() if (v[0] or v[1]) and not v[2]))
    ctx.log(tag, len(grams), "grammars,", len(cases), "runs of the machine,", sum(r.states for r in rs), "states")
    return st

LAWS_CFG = """SPECIFICATION Spec
INVARIANT Law
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = %d
 Wide = %d
"""

def denotation(ctx):
    """The equations of PEGs hold of Peg.tla (Laws.tla)."""
    r = tla.tlc_ok(tla.tlc("Laws", LAWS_CFG % ((4, 1) if ctx.thorough else (3, 0)), os.path.join(ctx.work, "laws"), workers=NCPU, timeout=1500 if ctx.thorough else 600), "Laws")
    ctx.count("law_cases", r.states // 2)
    ctx.log("laws of the denotation:", r.states // 2, "cases")
