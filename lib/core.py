"""What all checks share: context, corpora, reporting, evidence."""
import os, sys, json, random, time, re, hashlib, traceback
from collections import Counter
from repo import *
from gram import *
from gen import *
from harness import *
from conform import *
import tla

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.problems = []          # (key, text, replay dict)
        self.known_hit = []
        self.samples = []
        self.validated = 0
        self.cover = {}
        self.work = os.path.join(WORK, prop)
        self.notes = []

    def rng(self, tag):
        h = hashlib.sha256(("%s/%s/%d" % (self.prop, tag, self.seed)).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "big"))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, key, n=1):
        self.cover[key] = self.cover.get(key, 0) + n

    def sample(self, **kw):
        if len(self.samples) < 6: self.samples.append(kw)

    def problem(self, key, text, /, **replay):
        self.problems.append((key, text, replay))

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, file=sys.stderr, flush=True)

# ------------------------------------------------------------------ parse corpora
class Item:
    """A grammar with its entries and inputs."""
    def __init__(self, g, entries, inputs, src=None, note="", dispatch=None):
        self.g, self.entries, self.inputs, self.note = g, entries, inputs, note   # inputs: list of (entry index, text)
        self.lenient = False        # rewritten mechanically; may not be well-typed Rust
        self.unit = Unit(g, entries, src)

# pairs of characters that programs like to treat specially
EXOTIC = ["a\0", "\0 ", " a", "\ufeffa", "e\u0301", "\r\n", "\t ", "a\u2028", "\U0010ffff\ud7ff", "\x7f\x80", "aA", "ßS", "'\"", "\\/", "{}", "()", "ıi", "\ufffd\ufffe", "\u07ff\u0800", "\uffff\U00010000", "\xa0 ", "\x85\n", "éÉ"]

def items_random(ctx, tag, n, prof, itypes=("str",), ninp=30, maxlen=12, exhaustive=40, foreign="z", entries=ENTRIES, tweak=None, multibyte=0.0, exotic=0.12):
    rng = ctx.rng(tag)
    out = []
    for i in range(n):
        it = rng.choice(itypes)
        p = dict(prof)
        fg = foreign
        if it in ("str", "rec") and rng.random() < multibyte:
            p["letters"] = rng.choice(["aé", "é𝄞", "a€", "a\n", "λa"]); fg = "zé"
        elif it in ("str", "rec") and rng.random() < exotic:
            p["letters"] = rng.choice(EXOTIC); fg = rng.choice(["z", "\0", " ", "\n", "\ufeff", "\u0301"])
        g = Gen(rng, p, it, "g_%s_%d" % (tag, i)).grammar()
        if tweak: tweak(g, rng)
        ins = inputs(g, rng, ninp, exhaustive=exhaustive, maxlen=maxlen, foreign=fg)
        out.append(Item(g, entries, [(e, s) for s in ins for e in range(len(entries))]))
    return out

def multi(name, exprs, itype="str", used=True, extra=(), gargs=()):
    """One grammar with an entry per expression (and per use of its result).
    exprs: list of (expr, usable)."""
    rules, ents = list(extra), []
    for i, (e, usable) in enumerate(exprs):
        b = seq([el(e, "v"), el(pos(), "e")], node("top", ["v", "e"])) if usable else seq([el(e), el(pos(), "e")], node("top", ["e", "e"]))
        rules.append(Rule("x%d" % i, "V", b, pub=True, noeof=True))
        ents.append(("x%d" % i, 1))
    return Grammar(name, rules, itype, gargs), ents

def run_items(ctx, tag, items, flags, features=(), trace=None, agree=1, budget=60000, denote=True, maxticks=4, limit=5, judge=None, notrace=False):
    """Build, run and compare.  flags: components of Conform that count for this property.
    judge: instead of flags, a function of {case: (differing components, text)} that yields
    the (case, key, text) to report.  trace: None, 'in' (validate calls of the Parse traits) or 'rule' (trace feature lines)."""
    h = Harness(ctx.prop + "_" + tag, [it.unit for it in items], features)
    h.build()
    ctx.log("built", len(items), "grammars", "rejected %d" % len(h.rejected) if h.rejected else "")
    grams = [flatten(it.g, it.entries) for it in items]
    cases = [(u, e, s) for u, it in enumerate(items) for (e, s) in it.inputs]
    res = h.run(cases, limit=limit)
    ctx.log("ran", len(cases), "parses", dict(Counter(r[0] for r in res)))
    for u, msgs in h.rejected.items():
        if items[u].lenient: ctx.count("rewritten_grammars_dropped"); continue
        ctx.problem("COMP", "a well-formed grammar is not accepted: %s" % msgs[0][:300], grammar=items[u].unit.src, messages=msgs[:5])
    rec = {}
    cs = []
    for k, (u, e, s) in enumerate(cases):
        r = res[k]
        if r[0] == "SKIP": continue
        it = items[u]
        log, ticks = [], 0
        if it.g.itype == "rec":
            r, log = split_log(r)
            t = Counter(x for x in log if x.startswith("T "))
            ticks = max(t.values()) if t else 0
            log = [x for x in log if not x.startswith("T ")]
        if trace == "rule": log = [rule_event(l) for l in r[2] if l.startswith("[PEG_TRACE]")]
        cs.append(dict(g=u + 1, e=e + 1, i=mkinput(s, it.g.itype), o=outcome(r, it.entries[e][1]), id=k, ticks=ticks, tk="none" if notrace else trace or "in", log=[] if notrace else log))
        rec[k] = r
    def describe(k):
        u, e, s = cases[k]
        return dict(grammar=items[u].unit.src, rule=items[u].entries[e][0], input=s, recorded=list(rec[k][:2]))
    ok = set()
    if denote:
        lite = [{a: c[a] for a in ("g", "e", "i", "o", "id", "ticks")} for c in cs]
        mis, st, states = check_cases(grams, lite, os.path.join(ctx.work, tag), maxticks=maxticks)
        ctx.log("denotation:", len(mis), "differences,", states, "states")
        if judge:
            for k, key, t in judge(cases, rec, mis): ctx.problem(key, t[:700], **describe(k))
        for k, (d, t) in sorted(mis.items()) if not judge else ():
            hit = d & flags
            if hit: ctx.problem(",".join(sorted(hit)), "expected %s, got %s" % (t[:300], json.dumps(rec[k][:2], ensure_ascii=False)[:300]), prescribed=t, differs=sorted(d), **describe(k))
            else: ctx.count("differences_of_other_properties")
        acc = sum(1 for v in st.values() if v[0] == "ok")
        nontriv = sum(1 for v in st.values() if v[0] == "ok" and int(v[1]) > 0 or v[0] == "err" and (int(v[1]) > 0 or int(v[2]) > 1))
        ctx.count("parses_compared", len(st)); ctx.count("accepted", acc); ctx.count("nontrivial", nontriv)
        ctx.validated += len(st)
    if trace:
        mis, st, states = check_traces(grams, cs, os.path.join(ctx.work, tag + "_tr"), agree=agree, budget=budget)
        ctx.log("traces:", len(mis), "differences,", states, "states")
        over = 0
        for k, t in sorted(mis.items()):
            if t == "@budget": over += 1; continue
            m = re.match(r"outcome (\w+):", t)
            if m:
                if m.group(1) in flags or m.group(1) == "VAL" and "END" in flags: ctx.problem(m.group(1), t[:600], **describe(k))
                continue
            if notrace: continue
            c = next(c for c in cs if c["id"] == k)
            if rec[k][0] not in "OE":
                if "ABORT" in flags: ctx.problem("ABORT", "%s: %s" % (t, rec[k][:2]), **describe(k))
                continue
            ctx.problem("TRACE", t[:400], log=c["log"][:400], **describe(k))
        ctx.count("traces_over_step_budget", over)
        ctx.count("traces_validated", len(st) - over); ctx.count("events_validated", sum(int(v[0]) for v in st.values()))
        ctx.validated += len(st) - over
    ctx.count("grammars", len(items))
    for k in (len(cases) // 3, 2 * len(cases) // 3):
        if cases and k in rec:
            d = describe(k); d["grammar"] = d["grammar"][:1200]; d["input"] = d["input"][:200]
            ctx.sample(component=tag, **d)
    return h, cases, rec

def rule_event(l):
    """A line of the trace feature in the notation of PegMachine."""
    for rx, f in ((r"\[PEG_TRACE\] Attempting to match rule `(.*)` at (\S+)", "A {0} {1}"),
                  (r"\[PEG_TRACE\] Matched rule `(.*)` at (\S+) to (\S+)", "M {0} {1} {2}"),
                  (r"\[PEG_TRACE\] Failed to match rule `(.*)` at (\S+)", "F {0} {1}"),
                  (r"\[PEG_TRACE\] Cached match of rule `(.*)` at (\S+)", "CM {0} {1}"),
                  (r"\[PEG_TRACE\] Cached fail of rule `(.*)` at (\S+)", "CF {0} {1}"),
                  (r"\[PEG_TRACE\] Entering level (\S+)", "EN {0}"), (r"\[PEG_TRACE\] Leaving level (\S+)", "LV {0}")):
        m = re.fullmatch(rx, l)
        if m: return f.format(*m.groups())
    return l

# ------------------------------------------------------------------ reporting
def known_findings():
    """Entries of known-findings.txt: KNOWN-FINDING: property=Cnn key=<key> <what fails>"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(C\d+) key=(\S+) (.*)", l)
            if m: out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out

def finish(ctx, level, extra=None, assumptions=()):
    known = known_findings()
    real = []
    for key, text, rp in ctx.problems:
        kf = rp.get("finding")
        if kf and (ctx.prop, kf) in known:
            ctx.known_hit.append(kf)
        else: real.append((key, text, rp))
    for kf in sorted(set(ctx.known_hit)):
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, known[(ctx.prop, kf)]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "work", "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, (key, text, rp) in enumerate(real[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (ctx.prop, n))
        json.dump(dict(rp, property=ctx.prop, what=key, explanation=text), open(path, "w"), indent=1, ensure_ascii=False)
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        print("  %s: %s" % (key, text[:600]))
    if len(real) > 5: print("  (%d violations in all)" % len(real))
    cov = dict(ctx.cover)
    if level == "model_checking":
        cov.update(states=tla.TOTAL["states"], transitions=tla.TOTAL["transitions"], tlc_runs=tla.TOTAL["runs"], traces_validated_against_impl=ctx.validated, samples=ctx.samples or ["none"])
    else: cov.update(samples=ctx.samples)
    if extra: cov.update(extra)
    json.dump(dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov, assumptions=list(assumptions),
                   wall_s=round(time.time() - ctx.t0, 1), violations=len(real)),
              open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1, ensure_ascii=False)
    if not real: print("%s: held on everything explored (%s)" % (ctx.prop, ", ".join("%s=%s" % kv for kv in sorted(ctx.cover.items()))))
    return 1 if real else 0
