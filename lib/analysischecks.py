"""Checks of C12, C13, C14: what the macro says about a grammar before any input is seen."""
from core import *
from anagram import *
from generator import *
import laws

def judge_all(ctx, tag, cases, timeout=800):
    """TLC's complaints {id: text} and facts {id: (lr, loop, form, number of rules that match empty)}."""
    work = os.path.join(ctx.work, tag)
    os.makedirs(work, exist_ok=True)
    nproc = max(1, min(NCPU, len(cases) // 100 + 1))
    def one(k):
        path = os.path.join(work, "c%d.json" % k)
        json.dump({"cases": cases[k::nproc]}, open(path, "w"))
        r = tla.tlc("Verdict", CFG, os.path.join(work, "t%d" % k), timeout=timeout, defs={"CORPUS": path})
        return tla.tlc_ok(r, "Verdict chunk %d" % k)
    with ThreadPoolExecutor(nproc) as ex: rs = list(ex.map(one, range(nproc)))
    mis, st = {}, {}
    for r in rs:
        for l in r.lines("@MIS"):
            i, _, t = l.partition(" "); mis[int(i)] = t
        for l in r.lines("@ST"):
            f = [int(x) for x in l.split()]; st[f[0]] = f[1:]
    return mis, st

def static(ctx, tag, exe, gs, want, limit=6):
    """gs: list of rule lists.  Verdicts of the generator against the specification."""
    R = ARender()
    texts = [R.agrammar(g) for g in gs]
    res = generate_all(exe, texts, os.path.join(ctx.work, tag), lambda r: errors_of(r) if r[0] == 0 else r)
    ctx.log(tag, "generated", len(texts))
    cases, bad = [], 0
    for i, (g, e) in enumerate(zip(gs, res)):
        if not isinstance(e, list):
            ctx.problem("SYNTAX", "the generator does not read this grammar: %s" % (str(e)[:300],), grammar=texts[i]); continue
        o, other = classify([(m, "*") for m in e])
        o["other"] = 0
        cases.append(dict(id=i, A=aflatten(g), o=o, want=want))
        if other: ctx.problem("OTHER", "unexpected error: %s" % other[0], grammar=texts[i])
    mis, st = judge_all(ctx, tag, cases)
    for i, t in sorted(mis.items()):
        ctx.problem("VERDICT", t[:500], grammar=texts[i], reported=res[i][:6])
    ctx.count("grammars", len(cases)); ctx.validated += len(cases)
    for n, k in enumerate(("left_recursive", "spinning", "ill_formed")): ctx.count(k, sum(1 for v in st.values() if v[n]))
    ctx.count("with_rules_matching_empty", sum(1 for v in st.values() if v[3]))
    for i in (len(texts) // 3, 2 * len(texts) // 3):
        if i < len(texts): ctx.sample(component=tag, grammar=texts[i], reported=[str(x) for x in res[i]][:4])
    return mis, st

def family(ctx, names=("a", "b")):
    """Two rules with small bodies, and their markings."""
    L = level1(["a", "b"])
    return L

def two_rules(ctx, tag, n):
    """n grammars of the two-rule family (all of them if there are no more than n)."""
    rng = ctx.rng(tag)
    L = level1(["a", "b"]) + precs(["a", "b"])
    marks = [("no", "no"), ("lr", "no"), ("no", "lr"), ("memo", "no"), ("lr", "lr")]
    combos = [(x, y, m) for x in range(len(L)) for y in range(len(L)) for m in range(len(marks))]
    if len(combos) > n: combos = rng.sample(combos, n)
    else: ctx.notes.append("two-rule family complete")
    out = []
    for x, y, m in combos:
        out.append([Rule("a", None, L[x], cache=marks[m][0]), Rule("b", None, L[y], cache=marks[m][1])])
    return out

def deep_one(ctx, tag, n):
    """One or two unary operators around a level-1 expression in rule a; b is one of a few shapes."""
    rng = ctx.rng(tag)
    L = level1(["a", "b"]) + precs(["a", "b"])
    B = [lit("b"), opt(lit("b")), pos(), rcall("a"), seq([opt(lit("b")), rcall("a")]), not_(lit("b")), alt(lit("b"), pos()), star(lit("b")), rcall("c")]
    C = [lit("c"), seq([]), rcall("a"), rcall("b"), opt(rcall("b"))]
    out = []
    for _ in range(n):
        x = rng.choice(L)
        for _ in range(rng.randint(1, 2)):
            q = rng.random()
            x = rng.choice(unary(x)) if q < 0.5 else rng.choice([seq([x, rng.choice(L)]), seq([rng.choice(L), x]), alt(rng.choice(L), x), star(rng.choice(L), x), brep(x, rng.choice(L), rng.choice(BNDS))])
        rs = [Rule("a", None, x), Rule("b", None, rng.choice(B)), Rule("c", None, rng.choice(C))]
        for r in rs: r.cache = rng.choice(["no", "no", "no", "memo", "lr"])
        rng.shuffle(rs)
        out.append(rs)
    return out

def random_grammars(ctx, tag, n, **kw):
    rng = ctx.rng(tag)
    return [AGen(rng, rng.choice([2, 2, 3]), **kw).grammar() for _ in range(n)]

def known_static(ctx, exe, text, rx, finding, what):
    """A recorded finding: the generator accepts a grammar that it has to reject."""
    e = errors_of(generate(exe, text, os.path.join(ctx.work, "known.txt")))
    if e is None or not any(re.search(rx, m) for m in e): ctx.problem("KNOWN", what, grammar=text, finding=finding)

# ---------------------------------------------------------------- running what was accepted
def dynamic(ctx, tag, gs, facts, n, alphabet, maxlen):
    """Parsers of accepted grammars come back on every short input."""
    rng = ctx.rng(tag)
    ok = [i for i in range(len(gs)) if i in facts and not facts[i][0] and not facts[i][1]]
    ok = sorted(rng.sample(ok, min(n, len(ok))))
    words, cur = [""], [""]
    for _ in range(maxlen):
        cur = [x + c for x in cur for c in alphabet]
        words += cur
    words += ["".join(rng.choice(alphabet) for _ in range(rng.randint(maxlen + 1, 12))) for _ in range(8)]
    units = []
    class U(Unit):
        def __init__(self, g, entries, src): self.g, self.entries, self.src = g, entries, src
    R = ARender()
    for m, i in enumerate(ok):
        rules = [Rule(r.name, None, seq([el(r.body), el(seq([]))]), r.params, r.cache) for r in gs[i] if not r.generics]
        first = [r.name for r in rules if not r.params]
        rules += [Rule("x%d" % k, "V", seq([el(rcall(x))], node("t", [])), pub=True, noeof=True) for k, x in enumerate(first)]
        body = "\n  ".join(R.rule(r) for r in rules)
        g = Grammar("g%d" % m, rules)
        src = "peg::parser!{ pub grammar g%d() for str {\n use peg::{ParseLiteral, RuleResult};\n const N: usize = 2;\n %s\n} }\n" % (m, body)
        src = src.replace(" const N: usize = 2;\n", "")
        units.append(U(g, [("x%d" % k, 0) for k in range(len(first))], "pub const N: usize = 2;\n" + src))
    h = Harness(ctx.prop + "_" + tag, units)
    h.build()
    for u, msgs in h.rejected.items():
        # (alternatives of different types are Rust's business)
        o, other = classify([(m, "*") for m in msgs])
        if o["lr"] or o["loops"] or o["form"]: ctx.problem("COMP", "a grammar without fault is not accepted: %s" % msgs[0][:300], grammar=units[u].src)
        else: ctx.count("not_run_for_rust_types")
    cases = [(u, e, s) for u in range(len(units)) for e in range(len(units[u].entries)) for s in words]
    res = h.run(cases, limit=10)
    c = Counter(r[0] for r in res)
    ctx.log(tag, "ran", len(units), "accepted grammars", dict(c))
    for (u, e, s), r in zip(cases, res):
        if r[0] in ("CRASH", "HANG"):
            ctx.problem("ENDLESS", "an accepted grammar does not come to an end (%s)" % r[0], grammar=units[u].src, rule=units[u].entries[e][0], input=s)
    ctx.count("accepted_grammars_run", len(units)); ctx.count("parses_that_ended", c["O"] + c["E"])

STATIC = ("The generator binary of the working tree is run on each grammar; TLC computes from PegAnalysis.tla which rules match empty, which reach themselves, "
          "which repetitions can spin and which references are ill-formed",
          "renderer (lib/anagram.py) and TLC are trusted", "literals are not empty and explicit minima are at least 1, as the statements require",
          "rule-valued arguments begin with a literal except in the recorded findings")

def corpora(ctx, want, names=("two", "deep", "rand", "big")):
    exe = build_bin(ctx.work)
    facts = {}
    allg = {"two": lambda: two_rules(ctx, "two", ctx.n(5000, 10 ** 9)), "deep": lambda: deep_one(ctx, "deep", ctx.n(2500, 20000)),
            "rand": lambda: random_grammars(ctx, "rand", ctx.n(2500, 15000)), "big": lambda: big_grammars(ctx.rng("big"), ctx.n(700, 6000))}
    out = {}
    for tag in names:
        gs = allg[tag]()
        out[tag] = (gs, static(ctx, tag, exe, gs, want)[1])
    return exe, out

def c12(ctx):
    os.makedirs(ctx.work, exist_ok=True)
    exe, out = corpora(ctx, ["lr"])
    dynamic(ctx, "dyn", out["deep"][0], out["deep"][1], ctx.n(260, 1500), "abc", ctx.n(3, 4))
    laws.sound(ctx, "sound", deep_one(ctx, "sound", ctx.n(60, 3000)), "abc", 2)
    known_static(ctx, exe, "pub grammar g() for str {\n rule a() = t(<a()>)\n rule t(x: rule<()>) = x()\n}", "left recursive", "left-recursion-through-rule-argument",
                 "left recursion through a rule-valued argument is accepted")
    return finish(ctx, "model_checking", assumptions=STATIC)

def c13(ctx):
    os.makedirs(ctx.work, exist_ok=True)
    exe, out = corpora(ctx, ["loop"])
    dynamic(ctx, "dyn", out["two"][0], out["two"][1], ctx.n(260, 1500), "ab+", ctx.n(3, 4))
    laws.sound(ctx, "sound", two_rules(ctx, "sound", ctx.n(60, 3000)), "ab+", 2)
    laws.sound(ctx, "sound2", random_grammars(ctx, "sound2", ctx.n(60, 2000)), "ab", 2)
    known_static(ctx, exe, "pub grammar g() for str {\n rule t(x: rule<()>) = x()*\n rule a() = t(<\"a\"?>)\n}", "loops infinitely", "empty-rule-argument-repeated",
                 "a repetition of a rule-valued parameter called with an argument that matches empty is accepted")
    return finish(ctx, "model_checking", assumptions=STATIC)

# ---------------------------------------------------------------- ill-formed references
def inject(rng, rules, kind):
    """Put one fault of the kind into the grammar; False if there is no place for it."""
    body = [r for r in rules]
    def places(pred):
        """(container setter, expression) pairs for every expression position of the grammar"""
        out = []
        for r in rules:
            def visit(e, setter):
                if pred(e, r): out.append((setter, e, r))
                k = e["k"]
                if k in ("opt", "and", "not", "sl", "quiet", "rep"): visit(e["n"], lambda v, e=e: e.__setitem__("n", v))
                if k == "rep" and e["sep"]: visit(e["sep"], lambda v, e=e: e.__setitem__("sep", v))
                if k == "seq":
                    for x in e["es"]: visit(x["e"], lambda v, x=x: x.__setitem__("e", v))
                if k == "alt":
                    for i, x in enumerate(e["ns"]): visit(x, lambda v, i=i, e=e: e["ns"].__setitem__(i, v))
                if k == "call":
                    for a in e["args"]:
                        if a["k"] == "e": visit(a["e"], lambda v, a=a: a.__setitem__("e", v))
                if k == "aprec":
                    for lv in e["levels"]:
                        for op in lv:
                            for x in op:
                                if x["e"]["k"] != "mark" and not (len(op) == 3 and op[0]["e"]["k"] == op[2]["e"]["k"] == "pos"):
                                    visit(x["e"], lambda v, x=x: x.__setitem__("e", v))
            visit(r.body, lambda v, r=r: setattr(r, "body", v))
        return out
    anyp = lambda e, r: e["k"] in ("lit", "pat", "call", "seq", "opt", "pos")
    wrap = lambda e: rng.choice([e, e, opt(e), star(seq([lit("q"), e])), not_(e), quiet(e), sl(e), and_(e), seq([el(lit("w")), el(e)]), alt(lit("w"), e), star(lit("w"), seq([lit("v"), e]))])
    ps = places(anyp)
    if kind == "undef":
        if not ps: return False
        s, e, r = rng.choice(ps)
        s(wrap(rcall(rng.choice(["zz", "r", "r00", "R0", "R1", "r2_"]), [earg(lit("a"))] if rng.random() < 0.3 else [])))
    elif kind == "dup":
        r = rng.choice(rules)
        rules.insert(rng.randint(0, len(rules)), Rule(r.name, rng.choice([None, "u8"]), seq([el(lit("d"))], node("t", [])), r.params if rng.random() < 0.5 else []))
    elif kind == "arity":
        cs = [(s, e, r) for s, e, r in places(lambda e, r: e["k"] == "call" and e["r"] in {q.name for q in rules} and e["r"] not in [x for x, _ in r.params])]
        if not cs: return False
        s, e, r = rng.choice(cs)
        if e["args"] and rng.random() < 0.5: e["args"].pop(rng.randrange(len(e["args"])))
        else: e["args"].insert(rng.randint(0, len(e["args"])), rng.choice([varg(), earg(lit("a"))]))
    elif kind == "novalue":
        cs = [q for q in rules if not q.ret]
        if not cs or not ps: return False
        s, e, r = rng.choice(ps)
        q = rng.choice(cs)
        if q.name in [x for x, _ in r.params]: return False
        c = rcall(q.name, [earg(seq([lit("a"), lit("b")])) if t == "rule" else varg() for _, t in q.params])
        t = rng.choice([c, c, opt(c), and_(c), quiet(c), star(c), plus(c, lit(",")), alt(cus("take", 1), c), opt(alt(c, c))])
        if rng.random() < 0.3: t = rng.choice([not_(c), sl(c), seq([el(c)], node("t", [])), seq([el(c), el(c)]), star(cus("take", 1), c)])   # not used
        tm = [q2 for q2 in rules if any(ty == "rule" for _, ty in q2.params) and q2.name not in [x for x, _ in r.params]]
        if rng.random() < 0.35:                              # as the argument of a template
            if not tm:
                tm = [Rule("tmpl", None, seq([el(lit("t")), el(rcall("x"))]), [("x", "rule")])]; rules.append(tm[0])
            q2 = rng.choice(tm)
            b = rcall(q2.name, [earg(t if rng.random() < 0.7 else seq([el(t)], node("t", []))) if ty == "rule" else varg() for _, ty in q2.params])
            s(wrap(b) if rng.random() < 0.7 else seq([el(lit("n")), el(b)])); return True
        s(seq([el(lit("n")), el(t, "v")], node("t", [])))
    elif kind in ("parargs", "pargen"):
        cs = places(lambda e, r: anyp(e, r) and any(t == "rule" for _, t in r.params))
        if not cs: return False
        s, e, r = rng.choice(cs)
        p = rng.choice([x for x, t in r.params if t == "rule"])
        s(wrap(rcall(p, [rng.choice([varg(), earg(lit("a"))])] if kind == "parargs" else [], 1 if kind == "pargen" else 0)))
    elif kind == "cacheparam":
        cs = [r for r in rules if r.params or r.generics]
        if not cs: return False
        rng.choice(cs).cache = rng.choice(["memo", "lr"])
    elif kind == "pubparam":
        cs = [r for r in rules if any(t == "rule" for _, t in r.params)]
        if not cs: return False
        rng.choice(cs).pub = True
    elif kind == "noeof":
        cs = [r for r in rules if not r.pub]
        if not cs: return False
        rng.choice(cs).noeof = True
    elif kind in ("emptyop", "assoc", "badspan", "lonemark"):
        L = lambda: el(rng.choice([lit("+"), lit("-"), pat("ab"), opt(lit("q"))]))
        good = lambda: rng.choice([[L()], [L(), el(mark("@"), "y")], [el(mark("(@)"), "x"), L()], [el(mark("(@)"), "x"), L(), el(mark("@"), "y")], [el(mark("@")), L(), L(), el(mark("(@)"))], [el(pos(), "l"), el(mark("@"), "n"), el(pos(), "r")]])
        v = rng.choice(["@", "(@)"])
        bad = {"emptyop": [], "assoc": [el(mark(v), rng.choice(["", "x"]))] + [L() for _ in range(rng.randint(1, 3))] + [el(mark(v), rng.choice(["", "y"]))],
               "badspan": [el(pos(), rng.choice(["", "l"])), el(rng.choice([lit("a"), pos(), seq([lit("a"), lit("b")])]), ""), el(pos(), rng.choice(["", "r"]))],
               "lonemark": rng.choice([[el(mark(v))], [el(mark("@")), el(mark("(@)"))], [el(mark(v)), el(mark(v))], [el(mark("(@)")), el(mark("@")), el(mark("@"))], [L(), el(mark("@")), L()], [el(mark("(@)")), el(mark("@")), L()]])}[kind]
        lv = [[good() for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([0, 1, 2, 3]))] + [[[el(lit("z"))]]]
        i = rng.randrange(len(lv) + 1)
        if i == len(lv) or rng.random() < 0.3: lv.insert(i, [bad])
        else: lv[i].insert(rng.randrange(len(lv[i]) + 1), bad)
        b = aprec(lv)
        if not ps: return False
        s, e, r = rng.choice(ps)
        s(rng.choice([b, b, opt(b), star(seq([lit("q"), b])), quiet(b), seq([el(lit("w")), el(b)])]))
    elif kind == "marker":
        if not ps: return False
        s, e, r = rng.choice(ps)
        s(wrap(mark(rng.choice(["@", "(@)"]))))
    return True

FKINDS = ["undef", "dup", "arity", "novalue", "parargs", "pargen", "cacheparam", "pubparam", "noeof", "marker", "emptyop", "assoc", "badspan", "lonemark"]

def renamed(rng, rules):
    """The rules under other names: names that differ in case only, begin alike, or are long."""
    w = rng.choice(["ab", "value", "x", "Été", "rule_", "__p", "a" * 70])
    new = [w, w.upper(), w.capitalize() if w.capitalize() != w else w + "C", w + "_", "_" + w, w + w, w + "1", w + "12", w + "_1"]
    new = list(dict.fromkeys(x for x in new if x))
    rng.shuffle(new)
    names = list(dict.fromkeys(r.name for r in rules))
    m = dict(zip(names, new))
    if len(m) < len(names): return
    for r in rules:
        for e in awalk(r.body):
            if e["k"] == "call": e["r"] = m.get(e["r"], e["r"])
        r.params = [(m.get(x, x), t) for x, t in r.params]
        r.name = m[r.name]

def c14(ctx):
    import copy
    os.makedirs(ctx.work, exist_ok=True)
    rng = ctx.rng("form")
    base = AGen(rng, 2)
    gs = []
    n = ctx.n(2200, 14000)
    while len(gs) < n:
        g = AGen(rng, rng.choice([1, 2, 2, 3]), value=0.5).grammar()
        if rng.random() < 0.3: renamed(rng, g)
        if rng.random() < 0.25: gs.append((g, "none")); continue
        kinds = [rng.choice(FKINDS)] if rng.random() < 0.85 else [rng.choice(FKINDS) for _ in range(rng.randint(2, 3))]
        g = copy.deepcopy(g)
        if all(inject(rng, g, k) for k in kinds): gs.append((g, "+".join(kinds)))
    R = ARender()
    texts = [R.agrammar(g, "g") for g, _ in gs]
    diags = rustc_diags(ctx, texts)
    cases = []
    for i, (g, k) in enumerate(gs):
        o, other = classify(diags[i])
        o["other"] = 0
        ctx.count("fault_" + k if "+" not in k else "fault_several")
        cases.append(dict(id=i, A=aflatten(g), o=o, want=["form"]))
        if other and k == "none": ctx.problem("OTHER", "a grammar without fault is rejected: %s" % other[0], grammar=texts[i])
    mis, st = judge_all(ctx, "form", cases)
    ctx.log("judged", len(cases), "ill-formed", sum(v[2] for v in st.values()))
    for i, t in sorted(mis.items()):
        ctx.problem("FORM", "%s (injected: %s)" % (t[:400], gs[i][1]), grammar=texts[i], reported=[list(x) for x in diags[i]][:8])
    ctx.count("grammars", len(cases)); ctx.count("ill_formed", sum(v[2] for v in st.values())); ctx.count("well_formed", sum(1 - v[2] for v in st.values()))
    ctx.validated += len(cases)
    for i in (3, 7, 11): ctx.sample(grammar=texts[i], reported=[list(x) for x in diags[i]][:4])
    return finish(ctx, "model_checking", assumptions=("compiler diagnostics of the macro on each grammar are compared with PegAnalysis.tla; their location is the text of the span they point at",))

def rustc_diags(ctx, texts):
    """Compile each grammar in a module of its own; [(message, text pointed at)] per grammar."""
    d = fresh_dir(os.path.join(WORK, ctx.prop + "_rustc"))
    cargo_project(d, "h")
    put(os.path.join(d, "src", "lib.rs"), "")
    b = os.path.join(d, "src", "bin")
    if os.path.isdir(b): shutil.rmtree(b)
    os.makedirs(b, exist_ok=True)
    peg_builds(d)
    nb = NCPU
    where = {}
    for k in range(nb):
        lines = ["#![allow(warnings)]"]
        for i in range(k, len(texts), nb):
            lo = len(lines) + 1
            lines += ["mod m%d { pub const N: usize = 2; peg::parser!{" % i] + texts[i].split("\n") + ["} }"]
            where.setdefault(k, []).append((lo, len(lines), i))
        lines.append("fn main() {}")
        put(os.path.join(b, "d%d.rs" % k), "\n".join(lines) + "\n")
    p = run(["cargo", "check", "--offline", "--bins", "--keep-going", "-Z", "unstable-options", "--message-format=json"], cwd=d, timeout=800, extra_env={"RUSTC_BOOTSTRAP": "1"})
    out = {i: [] for i in range(len(texts))}
    import bisect
    done = set()
    for line in p.stdout.decode(errors="replace").splitlines():
        try: m = json.loads(line)
        except ValueError: continue
        if m.get("reason") != "compiler-message": continue
        t = m["target"]["name"]
        m = m["message"]
        if m.get("level") != "error" or m.get("code") or not re.fullmatch(r"d\d+", t): continue
        k = int(t[1:]); done.add(k)
        sps = [s for s in m["spans"] if s["is_primary"]] or m["spans"]
        for sp in sps[:1]:
            while sp.get("expansion") and not re.search(r"d\d+\.rs$", sp["file_name"]): sp = sp["expansion"]["span"]
            ln = sp["line_start"]
            own = [i for lo, hi, i in where[k] if lo <= ln <= hi]
            if not own: continue
            tx = sp["text"][0] if sp["text"] else None
            at = tx["text"][tx["highlight_start"] - 1:tx["highlight_end"] - 1] if tx and sp["line_start"] == sp["line_end"] else "*"
            out[own[0]].append((m["message"], at))
    if not done and p.returncode != 0: raise ToolError("no diagnostics: " + p.stderr.decode()[-2000:])
    return out
