"""Corpus -> harness run -> TLC comparison with Peg.tla."""
import os, json, re, time
from concurrent.futures import ThreadPoolExecutor
from repo import *
from harness import Harness, Unit, outcome, split_log
import tla
from gram import flatten, names

CFG = "SPECIFICATION Spec\nPOSTCONDITION AllChecked\nCHECK_DEADLOCK FALSE\n"

def mkinput(s, itype):
    """A string as an input of the specification: a long run of x at its start is only counted."""
    pad = len(s) - len(s.lstrip("x"))
    pad = pad if pad >= 200 else 0
    s = s[pad:]
    if itype == "u8":
        b = s.encode()
        ch = [chr(x) for x in b]
    else: ch = list(s)
    # the Rec type has opaque positions 7 + 3*i, reported as element indexes (ix)
    w = [len(c.encode()) for c in ch] if itype == "str" else [3 if itype == "rec" else 1] * max(1, len(ch))
    u = 1 if itype == "rec" or all(x == 1 for x in w) else 0
    return {"pad": pad, "ch": names("".join(ch)), "w": w or [1], "u": u, "o": 7 if itype == "rec" else 0, "lc": 1 if itype == "str" else 0, "ix": 1 if itype == "rec" else 0}

def check_cases(grams, cases, work, timeout=700, stats=1, nproc=NCPU, cfg=CFG, module="Conform", maxticks=4):
    """grams: list of flattened grammars; cases: dicts {g (1-based), e, i, o, id}.
    Returns (mismatches {id: (set, text)}, stats {id: fields}, tlc states)."""
    os.makedirs(work, exist_ok=True)
    weight = lambda c: len(c["i"]["ch"])
    nproc = max(1, min(nproc, len(cases) // 40 + sum(map(weight, cases)) // 1000 + 1, len(cases)))
    order = sorted(cases, key=weight, reverse=True)      # balanced
    chunks = [order[k::nproc] for k in range(nproc)]
    def one(k):
        ch = chunks[k]
        used = sorted({c["g"] for c in ch})
        ren = {g: n + 1 for n, g in enumerate(used)}
        path = os.path.join(work, "corpus%d.json" % k)
        with open(path, "w") as f:
            json.dump({"grammars": [grams[g - 1] for g in used], "cases": [dict({"ticks": 0}, **dict(c, g=ren[c["g"]])) for c in ch], "stats": stats, "maxticks": maxticks}, f)
        r = tla.tlc(module, cfg, os.path.join(work, "t%d" % k), timeout=timeout, defs={"CORPUS": path})
        return tla.tlc_ok(r, "%s chunk %d" % (module, k))
    with ThreadPoolExecutor(nproc) as ex: rs = list(ex.map(one, range(nproc)))
    mis, st, states = {}, {}, 0
    for r in rs:
        states += r.states
        for l in r.lines("@MIS"):
            m = re.match(r"(\d+) (\{.*?\}) \| (.*)", l)
            mis[int(m.group(1))] = (set(re.findall(r"\w+", m.group(2))), m.group(3))
        for l in r.lines("@ST"):
            f = l.split(" ")
            st[int(f[0])] = f[1:]
    return mis, st, states

TRACE_CFG = """SPECIFICATION Spec
INVARIANTS SuppressionBalanced PositionsInside CachedAtMostTwice FirstPassCollectsNothing Agrees
PROPERTIES LocationFixed MemoStable
CHECK_DEADLOCK FALSE
"""

def check_traces(grams, cases, work, timeout=800, budget=60000, agree=1, stats=1, nproc=NCPU, cfg=TRACE_CFG):
    """cases: dicts {g, e, i, o, id, tk, log}. Returns ({id: text}, {id: fields}, states)."""
    os.makedirs(work, exist_ok=True)
    nproc = max(1, min(nproc, len(cases) // 10 + 1))
    # balance by the length of the logs
    order = sorted(cases, key=lambda c: -len(c["log"]))
    chunks = [order[k::nproc] for k in range(nproc)]
    def one(k):
        ch = chunks[k]
        used = sorted({c["g"] for c in ch})
        ren = {g: n + 1 for n, g in enumerate(used)}
        path = os.path.join(work, "trace%d.json" % k)
        with open(path, "w") as f:
            json.dump({"grammars": [grams[g - 1] for g in used], "cases": [dict(c, g=ren[c["g"]]) for c in ch], "stats": stats, "budget": budget, "agree": agree}, f)
        r = tla.tlc("Trace", cfg, os.path.join(work, "t%d" % k), timeout=timeout, defs={"CORPUS": path})
        r = tla.tlc_ok(r, "Trace chunk %d" % k)
        return r
    with ThreadPoolExecutor(nproc) as ex: rs = list(ex.map(one, range(nproc)))
    mis, st, states = {}, {}, 0
    for r in rs:
        states += r.states
        for l in r.lines("@MIS"):
            i, t = l.split(" ", 1)
            mis[int(i)] = t
        for l in r.lines("@ST"):
            f = l.split(" ")
            st[int(f[0])] = f[1:]
    if len(st) != len(cases) and stats: raise ToolError("trace validation looked at %d of %d cases" % (len(st), len(cases)))
    return mis, st, states
