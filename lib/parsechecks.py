"""Checks of generated parsers against Peg.tla / PegMachine.tla: C01-C05, C07-C11, C15, C16, C19."""
from core import *
import laws

ALL = {"RES", "ABORT", "END", "VAL", "LOC", "EXP", "EOF", "LC", "DISP", "CNT"}

# ------------------------------------------------------------------ systematic families
def nullable(e):
    g = Gen(random.Random(0), DEF); g.rnull = {}; g.parnull = {}
    return g.nul(e)

def legal(e):
    """No unbounded repetition of something that can match empty."""
    return all(not (x["k"] == "rep" and x["max"]["k"] == "none" and nullable(x["n"]) and (x["sep"] is None or nullable(x["sep"]))) for x in walk(e))

UNARY = [opt, star, plus, and_, not_, sl, quiet,
         lambda e: rep(e, bi(2), bi(2), None, "exact"), lambda e: rep(e, bi(1), bi(2)), lambda e: rep(e, NB, bi(1)), lambda e: rep(e, bi(2), NB)]
ATOMS = [lambda: lit("a"), lambda: lit("b"), lambda: lit("ab"), lambda: pat("a"), lambda: pat("a", inv=1), lambda: pat("", any_=1), pos, lambda: seq([]), lambda: fail("xx")]

class Untyped(Exception): pass

def rty(e, used):
    """Rust type of an expression in a context that uses its value or not; '?' if nothing fixes it."""
    k = e["k"]
    if k in ("lit", "met", "metx"): return "U"
    if k in ("not", "sl"):
        if rty(e["n"], False) == "?": raise Untyped()
        return "U" if k == "not" else "S"
    if k == "pat": return "C" if used else "U"
    if k == "pos": return "P"
    if k in ("fail", "failx"): return "?"
    if k == "seq":
        for x in e["es"]:
            if rty(x["e"], x["l"] != "") == "?": raise Untyped()
        return "U" if e["a"]["k"] == "none" else "V"
    if k in ("and", "quiet"): return rty(e["n"], used)
    if k in ("opt", "rep"):
        t = rty(e["n"], used)
        if k == "rep" and e["sep"] and rty(e["sep"], False) == "?": raise Untyped()
        if t == "?": raise Untyped()
        return (k[0], t) if used else "U"
    if k == "alt":
        ts = [rty(x, used) for x in e["ns"]]
        if ts[0] == "?" or any(t not in ("?", ts[0]) for t in ts): raise Untyped()
        return ts[0]
    if k in ("cus", "prec", "par", "call"): return "V" if used or k != "call" else "U"
    raise Exception(k)

def well(e, used):
    try: return rty(e, used) != "?"
    except Untyped: return False

def family():
    """All expressions with at most two operators over one or two atoms."""
    base = [a() for a in ATOMS]
    un1 = [u(a) for u in UNARY for a in base]
    un2 = [u(x) for u in UNARY for x in un1]
    small = base[:6] + [u(a()) for u in UNARY for a in ATOMS[:3]]
    out = base + un1 + un2
    out += [seq([x, y]) for x in small for y in small]
    out += [alt(x, y) for x in small for y in small]
    out += [star(x, y) for x in small[:20] for y in small] + [plus(x, y) for x in small[:20] for y in small[:20]]
    out += [u(seq([x, y])) for u in UNARY for x in base[:6] for y in base[:6]]
    out += [u(alt(x, y)) for u in UNARY for x in base[:6] for y in base[:6]]
    out += [seq([opt(x), alt(seq([y, z]), y)]) for x in base[:4] for y in base[:4] for z in base[:4]]
    out += [alt(seq([x, not_(y)]), seq([z, and_(w_)])) for x in base[:4] for y in base[:3] for z in base[:4] for w_ in base[:3]]
    return [e for e in out if legal(e) and (well(e, True) or well(e, False))]

def prefix_family():
    """Choices of nothing but literals (or nearly so) that are prefixes of each other, in any order."""
    lits = ["", "a", "b", "ab", "aa", "aba"]
    out = []
    for x in lits:
        for y in lits:
            out += [alt(lit(x), lit(y)), seq([alt(lit(x), lit(y)), lit("b")]), seq([alt(lit(x), lit(y)), opt(lit("a"))]), alt(seq([lit(x), lit("b")]), lit(y)), alt(sl(lit(x)), sl(lit(y)))]
            if x and y: out += [star(alt(lit(x), lit(y))), seq([star(alt(lit(x), lit(y))), lit("b")]), star(lit(x), alt(lit(y), lit("b")))]
            for z in lits: out += [alt(lit(x), lit(y), lit(z)), seq([not_(alt(lit(x), lit(y))), lit(z)]), seq([and_(alt(lit(x), lit(y), lit("b"))), lit(z)])]
    pats = [lambda: pat("a"), lambda: pat("b"), lambda: pat("ab"), lambda: pat("a", inv=1), lambda: pat("", any_=1)]
    for x in pats:
        for y in pats: out += [alt(x(), y()), seq([x(), y()]), seq([star(x()), y()]), seq([star(alt(x(), y())), lit("b")]), seq([not_(x()), y()]), alt(seq([x(), y()]), y())]
    return [e for e in out if legal(e) and well(e, True) | well(e, False)]

def slice_family():
    """Slices of and in sequences, choices, repetitions, lookaheads and other slices."""
    bits = [lambda: lit("a"), lambda: pat("ab"), lambda: sl(lit("a")), lambda: opt(lit("b")), lambda: star(pat("a")), lambda: pos(), lambda: and_(pat("ab")), lambda: not_(lit("b")), lambda: sl(seq([lit("a"), sl(opt(lit("b")))])), lambda: quiet(sl(pat("ab")))]
    out = []
    for x in bits:
        out += [sl(x()), sl(sl(x())), sl(opt(x())), sl(quiet(x())), sl(and_(x())), opt(sl(x())), star(sl(seq([x(), lit("a")]))), sl(rep(x(), bi(1), bi(2))), sl(alt(seq([x(), lit("b")]), lit("a")))]
        for y in bits:
            out += [sl(seq([x(), y()])), sl(seq([x(), sl(y())])), sl(seq([sl(x()), y()])), sl(alt(seq([x(), lit("b")]), y())), seq([el(sl(x()), "p"), el(sl(y()), "q")], node("s", ["p", "q"])),
                    sl(seq([el(x(), "p"), el(y(), "q")], node("s", ["p", "q"]))), sl(seq([lit("a"), x(), y()])), sl(seq([x(), sl(seq([y(), lit("a")]))]))]
    return [e for e in out if legal(e) and well(e, True)]

def family_items(ctx, tag, exprs, per=24, itype="str", alphabet="ab", maxlen=4, words=None, gargs=(), used=None):
    """Packs expressions into grammars; every input of the alphabet up to maxlen."""
    if words is None:
        words, cur = [""], [""]
        for _ in range(maxlen):
            cur = [x + c for x in cur for c in alphabet]
            words += cur
    items = []
    for i in range(0, len(exprs), per):
        ch = exprs[i:i + per]
        pairs = []
        for j, e in enumerate(ch):
            u = used if used is not None else (i + j) % 3 > 0
            if not well(e, u): u = not u
            if not well(e, u): continue
            pairs.append((e, u))
        g, ents = multi("f_%s_%d" % (tag, i), pairs, itype, gargs=gargs)
        items.append(Item(g, ents, [(e, s) for e in range(len(ents)) for s in words]))
    return items

def pick(ctx, tag, xs, n):
    if len(xs) <= n: return xs
    return ctx.rng(tag).sample(xs, n)

# ------------------------------------------------------------------ C01
def c01(ctx):
    flags = {"RES", "ABORT", "END"}
    prof = profile(bound=0.35, cus=0.2, quiet=0.6, pos=0.5, dyn=0.1)
    items = items_random(ctx, "rand", ctx.n(170, 1500), prof, ("str", "str", "u8", "tok"), ninp=26, multibyte=0.25)
    items += items_random(ctx, "deep", ctx.n(30, 250), profile(depth=6, nrules=(2, 5), maxalts=6, letters="abc"), ("str",), ninp=26, maxlen=20)
    exprs = pick(ctx, "fam", family(), ctx.n(420, 100000))
    items += family_items(ctx, "fam", exprs)
    items += family_items(ctx, "pre", pick(ctx, "pre", prefix_family(), ctx.n(220, 100000)))
    items += long_items(ctx)
    items += X.bytes_items(ctx) + X.text_items(ctx) + X.sibling_items(ctx) + X.far_items(ctx, "far", ctx.n(15, 150), prof) + X.odd_items(ctx, "fam", family(), ctx.n(60, 600)) + X.odd_items(ctx, "pre", prefix_family(), ctx.n(30, 300))
    run_items(ctx, "a", items, flags)
    laws.denotation(ctx)
    return finish(ctx, "model_checking", assumptions=COMMON)

def long_items(ctx):
    """Inputs and grammars well beyond the size of ordinary tests."""
    out = []
    # long repetitions, nested parentheses, many alternatives
    many = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
    g = Grammar("lng", [
        Rule("ws", None, star(pat(" \n", style=0))),
        Rule("word", "S", sl(plus(pat("".join(many[:26]), style=1)))),
        Rule("num", "S", sl(plus(pat("0123456789", style=1)))),
        Rule("many", "V", alt(*[seq([el(lit(c + "!"))], node("k" + c, [])) for c in many])),
        Rule("item", "V", alt(seq([el(call("word"), "w"), el(not_(lit("!")))], node("w", ["w"])), seq([el(call("num"), "n"), el(not_(lit("!")))], node("n", ["n"])),
                              call("many"), call("list"))),
        Rule("list", "V", seq([lit("["), call("ws"), el(star(call("item"), seq([call("ws"), lit(","), call("ws")])), "xs"), call("ws"), lit("]")], node("l", ["xs"]))),
        Rule("nest", "V", alt(seq([lit("("), el(call("nest"), "x"), lit(")")], node("p", ["x"])), seq([lit("x")], node("x", [])))),
    ], "str")
    add = [("list", ), ("nest", )]
    ents = []
    for (r,) in add:
        g.rules.append(Rule("m_" + r, "V", call(r), pub=True)); ents.append(("m_" + r, 0))
        g.rules.append(Rule("p_" + r, "V", seq([el(call(r), "v"), el(pos(), "e")], node("top", ["v", "e"])), pub=True, noeof=True)); ents.append(("p_" + r, 1))
    rng = ctx.rng("long")
    ins = []
    def lst(d, n): return "[" + ", ".join(rng.choice(["ab", "7", "12", "q!", "Z!", "[]"]) if d == 0 or rng.random() < 0.6 else lst(d - 1, 4) for _ in range(n)) + "]"
    for n in (0, 1, 5, 20, 40):
        s = lst(2, n) if n < 20 else lst(0, n)
        ins += [(0, s), (1, s + "x"), (0, s[:-1]), (1, s), (0, s.replace(",", ",,", 1)), (0, s.replace("a", "A", 1))]
    for n in (0, 1, 7, 30, 60):
        s = "(" * n + "x" + ")" * n
        ins += [(2, s), (2, s[:-1]), (3, s + ")"), (2, "(" + s), (2, s.replace("x", "y"))]
    out.append(Item(g, ents, ins))
    return out

# ------------------------------------------------------------------ C02
def rep_family():
    """Every form of repetition over consuming and possibly-empty bodies and separators."""
    bodies = [lit("a"), pat("a"), alt(lit("ab"), lit("a")), seq([lit("a"), opt(lit("b"))]), opt(lit("a")), seq([not_(lit("b")), pat("", any_=1)]),
              sl(lit("a")), seq([el(pat("ab"), "q")], node("n", ["q"])), seq([el(pat("ab"), "q")], cond("k", ["q"], "eq", x="q", v="'a", msg="nota"))]
    seps = [None, lit(","), opt(lit(",")), pat(",b"), seq([lit(","), not_(lit(","))]), and_(lit("a")), alt(lit(",,"), lit(","))]
    bounds = [(NB, NB, "star"), (bi(1), NB, "plus"), (NB, bi(0), ""), (NB, bi(1), ""), (NB, bi(2), ""), (bi(0), bi(0), "exact"), (bi(1), bi(1), "exact"), (bi(2), bi(2), "exact"), (bi(3), bi(3), "exact"),
              (bi(0), NB, ""), (bi(1), NB, ""), (bi(2), NB, ""), (bi(0), bi(2), ""), (bi(1), bi(2), ""), (bi(1), bi(3), ""), (bi(2), bi(3), ""), (bi(2), bi(1), ""), (bi(3), bi(1), "")]
    out = []
    for b in bodies:
        for s in seps:
            for mn, mx, f in bounds:
                e = rep(b, mn, mx, s, f)
                if legal(e): out.append(e)
    return out

def c02(ctx):
    flags = {"RES", "ABORT", "END", "VAL"}
    words, cur = [""], [""]
    for _ in range(4):
        cur = [x + c for x in cur for c in "ab,"]
        words += cur
    rng = ctx.rng("words")
    long = ["".join(rng.choice("aaab,,") for _ in range(rng.randint(5, 9))) for _ in range(40)] + ["a,a,a,a", "a,a,a,", "aaaaaa", "a,,a", "ab,ab,ab", "a,a,a,a,a,b"]
    fam = rep_family()
    some = lambda tag, k: sorted(set(pick(ctx, tag, words, k))) + long[:14] + ["a,a,a,a", "a,a,a,", "aaaaaa", "a,,a"]
    exprs = pick(ctx, "fam", fam, ctx.n(450, 100000))
    items = family_items(ctx, "fam", exprs, words=some("w1", ctx.n(24, 121)), itype="str")
    # followed by something, and with the attempts made on the input recorded
    foll = [seq([el(e), el(x)]) for e in pick(ctx, "fol", fam, ctx.n(80, 400)) for x in (lit(","), lit("a"))]
    items += family_items(ctx, "fol", foll, words=some("w2", ctx.n(12, 60)), itype="u8")
    items += X.far_kinds(ctx) + X.count_items(ctx, ctx.n(14, 200)) + X.odd_items(ctx, "rep", fam, ctx.n(40, 400))
    # bounds taken from grammar arguments, rule parameters and matched digits
    dyn = []
    for b in (lit("a"), pat("ab"), opt(lit("a"))):
        for s in (None, lit(","), opt(lit(","))):
            for f in range(4):
                v = bv("ga0", "num"); w_ = bv("ga1", "num")
                mn, mx, form = [(v, v, "exact"), (v, NB, ""), (NB, v, ""), (w_, v, "")][f]
                e = rep(b, mn, mx, s, form)
                if legal(e): dyn.append(e)
    for ga in ((0, 0), (1, 0), (2, 1), (3, 2)):
        items += family_items(ctx, "dyn%d%d" % ga, dyn, words=some("w3", ctx.n(8, 60)), gargs=(("ga0", ga[0]), ("ga1", ga[1])))
    dig = []
    for b in (lit("a"), pat("ab")):
        for s in (None, lit(",")):
            for f in range(4):
                v = bv("n", "chr"); w_ = bv("m", "chr")
                mn, mx, form = [(v, v, "exact"), (v, NB, ""), (NB, v, ""), (v, w_, "")][f]
                es = [el(pat("01234", style=1), "n")] + ([el(pat("01234", style=1), "m")] if f == 3 else [])
                dig.append(seq(es + [el(rep(b, mn, mx, s, form), "x")], node("d", ["n", "x"])))
                # the bound is read again for every step of an outer repetition
                dig.append(star(seq(es + [el(rep(b, mn, mx, s, form), "x")], node("d", ["n", "x"])), opt(lit(";"))))
    dw = [a + b for a in ("0", "1", "2", "3") for b in ("", "a", "aa", "aaa", "a,a", "a,a,a", "a,", "aa1a", "a,a;1a", "aab2aab")] + [a + c + b for a in "012" for c in "012" for b in ("", "a", "aa", "aaa", "a,a", "a,a,a", "aa12aa")]
    items += family_items(ctx, "dig", dig, words=dw, used=True)
    items += items_random(ctx, "rand", ctx.n(70, 700), profile(rep=16, bound=0.75, sepw=0.6, dyn=0.7, gargs=0.6, depth=4), ("str", "u8", "tok"), ninp=24)
    run_items(ctx, "a", items, flags)
    # attempts on the input, step by step: no separator after the maximum, no element too many
    tr = family_items(ctx, "tr", pick(ctx, "trf", fam, ctx.n(130, 700)), words=some("w4", ctx.n(8, 40)), itype="rec")
    run_items(ctx, "t", tr, {"RES", "ABORT", "END", "VAL"}, trace="in", denote=False)
    return finish(ctx, "model_checking", assumptions=COMMON)

# ------------------------------------------------------------------ C03
def c03(ctx):
    flags = {"VAL", "ABORT"}
    prof = profile(act=12, sl=4, pos=3, opt=5, rep=5, cond=2, bind=0.4, seq=2, and_=2.5, lit=3)
    items = items_random(ctx, "rand", ctx.n(230, 2000), prof, ("str", "str", "u8", "tok", "rec"), ninp=26, multibyte=0.5)
    lab = []
    atoms = [lit("a"), pat("a"), pat("é"), sl(seq([lit("a"), opt(lit("é"))])), pos(), opt(lit("a")), star(pat("aé")), and_(sl(lit("a"))), quiet(pat("a")), alt(lit("a"), lit("é")),
             plus(opt(pat("a")), lit("é")), sl(not_(lit("a"))), rep(pos(), bi(1), bi(2)), sl(star(pat("aé")))]
    for a in atoms:
        for b in atoms:
            lab.append(seq([el(a, "p"), el(b, "q")], node("s", ["p", "q"])))
    for a in atoms:
        lab.append(alt(seq([el(a, "p"), el(lit("é"), "q"), el(lit("z"))], node("x", ["p", "q"])), seq([el(a, "p"), el(pos(), "q")], node("y", ["p", "q"]))))
        lab.append(seq([el(star(seq([el(pat("a"), "p"), el(opt(lit("é")), "q"), el(and_(pat("", any_=1)))], node("i", ["p", "q"]))), "xs"), el(a, "r")], node("z", ["xs", "r"])))
    lab = [e for e in lab if legal(e)]
    items += family_items(ctx, "lab", pick(ctx, "lab", lab, ctx.n(160, 10000)), alphabet="aé", maxlen=4, used=True)
    items += family_items(ctx, "sli", pick(ctx, "sli", slice_family(), ctx.n(200, 100000)), maxlen=3, used=True)
    items += lang_items(ctx) + X.text_items(ctx) + X.far_items(ctx, "far", ctx.n(15, 150), prof) + X.count_items(ctx, ctx.n(5, 50)) + X.odd_items(ctx, "sli", slice_family(), ctx.n(70, 700), used=True)
    if ctx.thorough: items += X.long_vector(ctx)
    run_items(ctx, "a", items, flags)
    return finish(ctx, "model_checking", assumptions=COMMON)

def lang_items(ctx):
    """Variants of the same grammar with explicit return types through the AST: nested options and lists."""
    rng = ctx.rng("nest")
    out = []
    for i in range(ctx.n(12, 80)):
        def deep(d):
            k = rng.randint(0, 5)
            if d == 0: return rng.choice([lit("a"), pat("ab"), sl(pat("ab")), pos()])
            if k == 0: return opt(deep(d - 1))
            if k == 1: return rep(deep(d - 1), bi(rng.randint(0, 1)), bi(rng.randint(1, 3)), rng.choice([None, lit(",")]))
            if k == 2: return quiet(deep(d - 1))
            if k == 3: return and_(deep(d - 1))
            l = "l%d" % d
            return seq([el(deep(d - 1), l)], node("n%d" % d, [l]))
        ex = [deep(rng.randint(2, 5)) for _ in range(16)]
        out += family_items(ctx, "nest%d" % i, ex, alphabet="ab,", maxlen=2, used=True)
    return out

# ------------------------------------------------------------------ C04 / C05
ERRPROF = dict(fail=2, quiet=1, cond=2.5, not_=2, alt=8, lit=6, pat=6, sl=1, memo=0.3, maxalts=4, rep=4, opt=4)

def c04(ctx):
    flags = {"LOC", "EXP", "EOF", "DISP", "ABORT"}
    items = items_random(ctx, "rand", ctx.n(230, 2000), profile(**ERRPROF), ("str", "str", "u8", "tok", "rec"), ninp=26, multibyte=0.2)
    items += items_random(ctx, "wide", ctx.n(30, 300), profile(**dict(ERRPROF, maxalts=7, letters="abc", depth=5)), ("str",), ninp=26)
    exprs = pick(ctx, "fam", [alt(a, b) for a in family()[:160] for b in (lit("b"), pat("a", inv=1), not_(lit("a"))) if legal(a)], ctx.n(200, 5000))
    items += family_items(ctx, "fam", [e for e in exprs if True], used=False)
    items += curated_errors(ctx) + X.token_items(ctx) + X.far_items(ctx, "far", ctx.n(15, 150), profile(**ERRPROF)) + X.odd_items(ctx, "fam", family(), ctx.n(40, 400), used=False) + X.silence_items(ctx, "c04", ctx.n(10, 150))
    run_items(ctx, "a", items, flags)
    return finish(ctx, "model_checking", assumptions=COMMON)

def curated_errors(ctx):
    """Token spellings: escapes, quotes, many alternatives, duplicate tokens, nothing reportable."""
    lits = ["\n", "\t", '"', "\\", "é", "a b", "'", "/*", "//", "{", "}"]
    r = [Rule("r0", "V", alt(*[seq([lit(x)], node("n%d" % i, [])) for i, x in enumerate(lits)])),
         Rule("r1", "V", alt(seq([lit("a"), lit("a")], node("p", [])), seq([lit("a"), lit("b")], node("q", [])), seq([lit("a"), pat("b")], node("r", [])), seq([lit("a"), pat("ab")], node("s", [])), seq([lit("ab"), lit("a")], node("t", [])))),
         Rule("r2", "V", seq([el(quiet(lit("a"))), el(not_(lit("b"))), el(and_(lit("c")))], node("u", []))),
         Rule("r3", "V", seq([el(star(lit("a"))), el(opt(seq([lit("b"), lit("b"), lit("b")]))), el(not_(pat("", any_=1)))], node("v", [])))]
    ents = []
    for i in range(4):
        r.append(Rule("m%d" % i, "V", call("r%d" % i), pub=True)); ents.append(("m%d" % i, 0))
    ins = [(i, s) for i in range(4) for s in ["", "a", "b", "aa", "ab", "aab", "abb", "abba", "abbb", "abbbb", "c", "ca", "ac", "aac", "aaabbbc"] + lits]
    return [Item(Grammar("cerr", r, "str"), ents, ins)]

def c05(ctx):
    flags = {"LOC", "EXP", "EOF", "ABORT"}
    p = profile(**dict(ERRPROF, quiet=6, and_=4, not_=4, memo=0.6, call=9, fail=2))
    items = items_random(ctx, "rand", ctx.n(220, 2000), p, ("str", "str", "u8", "rec"), ninp=26, tweak=None)
    items += items_random(ctx, "tmpl", ctx.n(50, 500), profile(**dict(ERRPROF, quiet=6, and_=4, not_=4, memo=0.4, call=9, tmpl=0.8, par=9)), ("str",), ninp=24)
    items += items_random(ctx, "lr", ctx.n(30, 300), profile(**dict(ERRPROF, quiet=6, and_=4, not_=4, memo=0.4, call=9, lr=0.5)), ("str",), ninp=24, maxlen=6)
    items += items_random(ctx, "prec", ctx.n(30, 300), profile(**dict(ERRPROF, quiet=5, prec=6, memo=0.4)), ("str",), ninp=24, maxlen=8)
    # silenced sub-expressions in every position, the same rule inside and outside
    sil = [quiet, and_, not_, lambda e: quiet(quiet(e)), lambda e: not_(quiet(e)), lambda e: and_(not_(e)), lambda e: quiet(seq([opt(e), not_(lit("z"))]))]
    ex = []
    for memo in ("no", "memo", "lr"):
        xs = []
        for s in sil:
            for t in (call("k"), seq([lit("a"), call("k")]), alt(call("k"), lit("c")), star(call("k"))):
                for after in (call("k"), lit("c"), seq([lit("a"), lit("b")]), alt(call("k"), lit("d"))):
                    xs += [seq([alt(seq([s(t), after]), call("k")), lit("d")]), alt(seq([s(t), after]), call("k")), seq([opt(s(t)), after]), alt(seq([s(t), lit("c")]), seq([s(t), after]), fail("ff"))]
        xs = pick(ctx, "sil" + memo, xs, ctx.n(60, 100000))
        for i in range(0, len(xs), 20):
            kr = [Rule("k", "V", alt(seq([lit("a"), lit("a")], node("k1", [])), seq([lit("b"), opt(lit("c"))], node("k2", []))), cache=memo)]
            g, ents = multi("sil_%s_%d" % (memo, i), [(e, False) for e in xs[i:i + 20]], "str", extra=kr)
            words = [x for n in range(4) for x in words_of("abc", n)]
            items.append(Item(g, ents, [(e, s) for e in range(len(ents)) for s in words]))
    items += X.far_kinds(ctx) + X.depth_items(ctx) + X.silence_items(ctx, "c05", ctx.n(20, 300))
    run_items(ctx, "a", items, flags)
    run_items(ctx, "l", X.depth_items(ctx, long=True), flags, trace="in", denote=False, agree=0, notrace=True, budget=400000)
    return finish(ctx, "model_checking", assumptions=COMMON)

def words_of(alpha, n):
    cur = [""]
    for _ in range(n): cur = [x + c for x in cur for c in alpha]
    return cur

# ------------------------------------------------------------------ C07
def c07(ctx):
    rng = ctx.rng("ent")
    ents = [("main", 0), ("pfx", 1), ("unit", 0), ("again", 0), ("lst", 0)]
    def tweak(g, rng):
        # further public rules: no result, calling a public rule, calling a #[no_eof] rule
        g.rules.append(Rule("unit", None, call("r0"), pub=True))
        g.rules.append(Rule("again", "V", call("pfx") if rng.random() < 0.5 else call("main"), pub=True, cache=rng.choice(["no", "memo"])))
        g.rules.append(Rule("lst", ("L", "V"), rep(call("main"), bi(rng.randint(0, 2)), bi(rng.randint(1, 3)), rng.choice([None, lit(",") if g.itype != "tok" else pat(",")])), pub=True))
    items = items_random(ctx, "rand", ctx.n(200, 1800), profile(**dict(ERRPROF, nullrule=0.5)), ("str", "u8", "tok", "rec"), ninp=16, entries=ents, tweak=tweak, exhaustive=24, multibyte=0.2)
    items += X.tail_items(ctx) + X.far_items(ctx, "far", ctx.n(12, 100), profile(**ERRPROF)) + X.entry_items(ctx, ctx.n(40, 300), profile(**dict(ERRPROF, nullrule=0.5)))
    run_items(ctx, "a", items, {"RES", "EOF", "ABORT", "END"})
    return finish(ctx, "model_checking", assumptions=COMMON)

COMMON = ["inputs and grammars are generated from the seed; grammars whose termination rests on hand-written matchers that match empty are not generated",
          "the rendering of grammar syntax trees to text (lib/gram.py) and the recording helpers (harness/sup.rs) are trusted"]

# ------------------------------------------------------------------ C08
import copy

def recache(g, name, choose):
    """A copy of the grammar with the cache marks of non-left-recursive, parameterless rules chosen anew."""
    rules = []
    for r in g.rules:
        c = r.cache
        if not r.params and c != "lr": c = "memo" if choose(r) else "no"
        rules.append(Rule(r.name, r.ret, r.body, r.params, c, r.pub, r.noeof, r.generics))
    return Grammar(name, rules, g.itype, g.gargs)

def same_as_first(group):
    """Judge for groups of items that have to behave alike: {item index: (group, is reference)}.
    Reports a case that departs from the specification where the reference does not (or otherwise)."""
    def judge(cases, rec, mis):
        base = {}
        for k, (u, e, s) in enumerate(cases):
            gi, first = group[u]
            if first and k in rec: base[(gi, e, s)] = k
        for k, (u, e, s) in enumerate(cases):
            gi, first = group[u]
            if first or k not in rec or (gi, e, s) not in base: continue
            b = base[(gi, e, s)]
            d1, d0 = mis.get(k, (set(), ""))[0], mis.get(b, (set(), ""))[0]
            if d1 != d0 or rec[k][:2] != rec[b][:2] and not group.get("loose"):
                yield k, ",".join(sorted(d1 ^ d0)) or "DIFF", "differs from the plain variant: %s instead of %s (%s)" % (json.dumps(rec[k][:2], ensure_ascii=False), json.dumps(rec[b][:2], ensure_ascii=False), mis.get(k, ("", ""))[1])
    return judge

def c08(ctx):
    base = items_random(ctx, "rand", ctx.n(75, 700), profile(**dict(ERRPROF, call=10, quiet=2.5, and_=3, not_=3, nrules=(3, 5), gargs=0.5, lr=0.12)), ("str", "u8", "tok"), ninp=20, maxlen=9)
    for it in base:        # growing is exponential in the denotation
        if any(r.cache == "lr" for r in it.g.rules): it.inputs = [(e, s) for e, s in it.inputs if len(s) <= 5]
    base += X.far_kinds(ctx) + X.silence_items(ctx, "c08", ctx.n(6, 60), ("str", "u8"))
    items, group = [], {}
    def add(it, gi, first):
        group[len(items)] = (gi, first); items.append(it)
    rng = ctx.rng("mark")
    for gi, it in enumerate(base):
        for v in range(3):
            g = recache(it.g, it.g.name + "_%d" % v, (lambda r: False) if v == 0 else (lambda r: True) if v == 1 else (lambda r: rng.random() < 0.5))
            add(Item(g, it.entries, it.inputs), gi, v == 0)
    run_items(ctx, "a", items, set(), judge=same_as_first(group))
    # evaluations of memoised bodies, counted inside the bodies
    ticks = []
    for it in items_random(ctx, "tick", ctx.n(80, 600), profile(call=14, alt=8, not_=3, and_=3, quiet=2, nrules=(3, 5), memo=1.0, lit=2, depth=5), ("rec",), ninp=20, maxlen=14, tweak=lambda g, r: ticking(g)):
        ticks.append(it)
    g = Grammar("expo", [
        Rule("e", "V", alt(seq([lit("("), el(call("e"), "x"), lit(")"), lit("a")], node("a", ["x"])), seq([lit("("), el(call("e"), "x"), lit(")"), lit("b")], node("b", ["x"])),
                           seq([el(not_(seq([lit("("), call("e"), lit("c")]))), el(lit("(")), el(call("e"), "x"), lit(")")], node("n", ["x"])), seq([lit("x")], node("x", []))), cache="memo"),
        Rule("main", "V", call("e"), pub=True), Rule("pfx", "V", seq([el(call("e"), "v"), el(pos(), "e")], node("top", ["v", "e"])), pub=True, noeof=True)], "rec")
    ticking(g)
    ticks.append(Item(g, ENTRIES, [(e, "(" * n + "x" + t) for e in (0, 1) for n in (0, 1, 2, 3, 5) for t in (")a" * n, ")b" * n, ")" * n, ")b" * max(0, n - 1) + ")c", "")]))
    long = Item(Grammar("expol", [copy.deepcopy(r) for r in g.rules], "rec"), ENTRIES, [(e, "(" * n + "x" + t) for e in (0, 1) for n in (12, 25) for t in (")a" * n, ")b" * n, ")" * n, ")b" * (n - 1) + ")c")])
    ticks += X.memo_items(ctx)
    run_items(ctx, "n", ticks, {"CNT", "ABORT"}, maxticks=4)
    # deep nesting, only feasible with the bound (validated against the machine, which memoises)
    run_items(ctx, "l", [long], {"CNT", "ABORT", "RES", "VAL"}, denote=False, agree=0, trace="in", notrace=True, limit=20)
    return finish(ctx, "model_checking", assumptions=COMMON + ["at most two evaluations of a memoised body per position and pass (one with, one without failure reporting)"])

def ticking(g):
    for r in g.rules:
        if r.cache == "memo" and r.ret == "V":
            r.body = seq([el(cus("tick", r.name)), el(r.body, "tv")], node("tk", ["tv"]))

# ------------------------------------------------------------------ C09
def c09(ctx):
    flags = {"RES", "ABORT", "END", "VAL"}
    items = items_random(ctx, "rand", ctx.n(110, 900), profile(lr=0.6, memo=0.2, depth=3, extra="+,"), ("str", "u8", "tok"), ninp=22, maxlen=6)
    items += lr_curated(ctx, "str", short=True) + X.chain_items(ctx) + X.far_kinds(ctx)
    run_items(ctx, "a", items, flags)
    tr = items_random(ctx, "trace", ctx.n(60, 500), profile(lr=0.6, memo=0.2, depth=3, extra="+,"), ("rec",), ninp=16, maxlen=14, exhaustive=8)
    tr += lr_curated(ctx, "rec", short=False)
    run_items(ctx, "t", tr, flags, trace="in", denote=False, agree=0, notrace=True)
    findings_lr(ctx)
    return finish(ctx, "model_checking", assumptions=COMMON)

def lr_curated(ctx, itype, short):
    """e = e op t / t in many dressings; each with the equivalent iteration t (op t)*."""
    out = []
    t_ = Rule("t", "V", alt(seq([el(sl(plus(pat("12"))), "n")], node("n", ["n"])), seq([lit("("), el(call("e"), "x"), lit(")")], node("p", ["x"]))))
    def two(name, body, extra=(), cache="lr"):
        g = Grammar(name, [Rule("e", "V", body, cache=cache), copy.deepcopy(t_)] + [copy.deepcopy(x) for x in extra], itype)
        add_entries(g.rules, "e")
        return g
    bin_ = lambda op, tag: seq([el(call("e"), "l"), lit(op), el(call("t"), "r")], node(tag, ["l", "r"]))
    gs = [two("lc1", alt(bin_("+", "add"), call("t"))),
          two("lc2", alt(bin_("+", "add"), bin_("-", "sub"), call("t"))),
          two("lc3", alt(seq([el(call("e"), "l"), lit("!")], node("fac", ["l"])), bin_("+", "add"), call("t"))),
          two("lc4", alt(seq([el(call("e"), "l"), lit("+"), el(call("e"), "r")], node("add", ["l", "r"])), call("t"))),
          two("lc5", alt(call("t"), bin_("+", "add"))),                      # never grows
          two("lc6", alt(seq([opt(lit("~")), el(call("e"), "l"), lit("+"), el(call("t"), "r")], node("add", ["l", "r"])), call("t"))),
          two("lc7", alt(seq([el(call("e"), "l"), el(opt(lit("+")), "o"), el(opt(call("t")), "r")], node("add", ["l", "o", "r"])), call("t"))),   # may stop growing
          two("lc8", alt(seq([el(call("e"), "l"), lit("+"), el(call("t"), "r"), el(not_(lit("!")))], node("add", ["l", "r"])), call("t"))),
          two("lc9", alt(call("t"), lit("x")) if False else alt(seq([el(call("t"), "v")], node("w", ["v"])), seq([lit("x")], node("x", []))))]   # marked, not recursive
    gs.append(two("lca", alt(bin_("+", "add"), call("m")), [Rule("m", "V", alt(seq([el(call("m"), "l"), lit("*"), el(call("t"), "r")], node("mul", ["l", "r"])), call("t")), cache="lr")]))
    # the same rule at the same position inside a lookahead first, and under quiet!{}
    gs.append(two("lcb", alt(seq([el(call("e"), "l"), lit("+"), el(call("t"), "r")], node("add", ["l", "r"])), call("t")),
                  [Rule("top", "V", alt(seq([el(and_(seq([call("e"), lit("!")]))), el(call("e"), "x"), lit("!")], node("bang", ["x"])), seq([el(quiet(call("e")), "x")], node("q", ["x"]))))]))
    gs[-1].rules = [r for r in gs[-1].rules if not r.pub]; add_entries(gs[-1].rules, "top")
    rng = ctx.rng("lrw" + itype)
    fixed = ["", "1", "1+", "1+2", "+1", "1+2+1", "1-2+1", "1!", "1!+2!", "(1+2)", "x", "1*2+1", "1+2!", "(1", "~1+2", "1+(2", "12"]
    for g in gs:
        ws = list(fixed)
        for _ in range(10 if short else 24):
            n = rng.randint(1, 3 if short else 9)
            s = "".join(rng.choice(["1", "2", "12", "(1)", "(1+2)"]) + rng.choice(["+", "+", "-", "*", "!", "!+", ""]) for _ in range(n))
            ws.append(s if rng.random() < 0.5 else s.rstrip("+-*"))
        ws = [w for w in dict.fromkeys(ws) if not short or len(w) <= 8]
        if not short and g.name in ("lc1", "lc3", "lca"):     # operands beyond count
            ws += ["1" + o * n + z for o, n, z in (("+2", 70, ""), ("+2", 300, ""), ("+2", 300, "+"), ("!" if g.name == "lc3" else "+1", 700, ""))]
        out.append(Item(g, ENTRIES, [(e, s) for s in ws for e in (0, 1)]))
    return out

def findings_lr(ctx):
    """Growing through a second marked rule does not happen (known finding)."""
    g = Grammar("ind", [Rule("e", "V", alt(call("x"), call("t")), cache="lr"), Rule("x", "V", seq([el(call("e"), "l"), lit("+"), el(call("t"), "r")], node("add", ["l", "r"])), cache="lr"),
                        Rule("t", "V", seq([lit("1")], node("one", [])))], "str")
    add_entries(g.rules, "e")
    it = Item(g, ENTRIES, [(0, "1+1"), (0, "1"), (1, "1+1"), (0, "1+1+1"), (1, "1+1+1"), (1, "1+"), (0, "+")])
    def judge(cases, rec, mis):
        for k, (d, t) in sorted(mis.items()):
            if d & {"RES", "ABORT", "END", "VAL"}: yield k, ",".join(sorted(d)), t
    n = len(ctx.problems)
    run_items(ctx, "ind", [it], set(), judge=judge)
    for i in range(n, len(ctx.problems)):
        key, text, rp = ctx.problems[i]
        # exactly the recorded symptom: only the first operand is taken
        r = rp["recorded"]
        if r[0] == "E" and rp["rule"] == "main" and rp["input"] in ("1+1", "1+1+1") and r[1][0] == "1" or r == ["O", ["top(one(),@1)"]] and rp["rule"] == "pfx":
            rp["finding"] = "indirect-left-recursion"

# ------------------------------------------------------------------ C10
def c10(ctx):
    flags = {"RES", "ABORT", "END", "VAL"}
    items = []
    rng = ctx.rng("blocks")
    words = [w_ for n in range(6) for w_ in words_of("a+1", n)] 
    for i in range(ctx.n(110, 900)):
        it = rng.choice(["str", "str", "u8", "tok"])
        G = Gen(rng, profile(ops=rng.choice(["+1", "+,12", "+", "+1,"]), letters="ab", manyops=0.2, longops=0.2), it, "p%d" % i)
        G.sigs = [dict(name="r0", ret="V", params=[])]; G.cur = 0; G.recbudget = 0; G.rnull = {"r0": False}; G.parnull = {}; G.scope = []
        e = G.g_prec(3, True)
        if rng.random() < 0.35:       # parenthesised operand
            l = G.newlab()
            paren = [el(lit("(")), el(call("r0"), l), el(lit(")"))] if it != "tok" else [el(pat("c")), el(call("r0"), l), el(pat("d"))]
            e["levels"][-1].append(dict(ki="atom", es=paren, t=G.newtag(), args=[l], la="", ra="", assoc="l"))
        if rng.random() < 0.3:        # several levels more, the same operator at different levels
            e["levels"][1:1] = copy.deepcopy(e["levels"][:1])
            for op in e["levels"][1]: op["t"] = G.newtag()
        if rng.random() < 0.2:        # an operand that may be nothing at all
            l = G.newlab()
            e["levels"][-1].append(dict(ki="atom", es=[el(rng.choice([pos(), opt(pat("c")), sl(opt(lit("1"))) if it != "tok" else pos()]), l)], t=G.newtag(), args=[l], la="", ra="", assoc="l"))
        g = Grammar("p%d" % i, [Rule("r0", "V", e, cache="memo" if rng.random() < 0.15 else "no")], it)
        add_entries(g.rules)
        alpha = [c for c in g.alphabet() if c not in "bz"] or ["a"]
        ws = {}
        for n in range(4):
            for w_ in words_of(alpha[:5], n): ws[w_] = 1
        ws = dict.fromkeys(rng.sample(list(ws), min(len(ws), 30)))
        ops = ["+", "++", "1", ",", "2", "11", "+a", "1b"]
        atoms = ["a", "b", "a", "(a+a)" if it != "tok" else "ca+ad", "+a"]
        for _ in range(40):
            n = rng.randint(1, 6)
            s = rng.choice(["", "", "+", "1", "++"]) + rng.choice(atoms)
            for _ in range(n): s += rng.choice(ops) + (rng.choice(atoms) if rng.random() < 0.8 else "")
            ws[s] = 1
        for s in inputs(g, rng, 25, exhaustive=1, maxlen=14): ws[s] = 1
        items.append(Item(g, ENTRIES, [(rng.randint(0, 1) if len(ws) > 40 else e_, s) for s in ws for e_ in ((0,) if len(ws) > 40 else (0, 1))]))
    items += X.level_items(ctx) + X.far_kinds(ctx)
    items += items_random(ctx, "mixed", ctx.n(40, 300), profile(prec=8, depth=4), ("str", "tok"), ninp=20)
    run_items(ctx, "a", items, flags)
    return finish(ctx, "model_checking", assumptions=COMMON)

# ------------------------------------------------------------------ C11
def inline(g, name):
    """Substitutes the bodies of templates with only rule-valued parameters; None if there is none."""
    tm = {r.name: r for r in g.rules if r.params and all(t.startswith("rule") for _, t in r.params)}
    if not tm: return None
    hit = [0]
    def sub(e, env):
        e = dict(e)
        k = e["k"]
        if k == "par" and e["x"] in env: return env[e["x"]]
        if k == "call":
            args = [dict(a, e=sub(a["e"], env)) if a["k"] == "e" else dict(a) for a in e["args"]]
            if e["r"] in tm and all(a["k"] == "e" for a in args):
                hit[0] += 1
                t = tm[e["r"]]
                b = sub(t.body, {t.params[i][0]: a["e"] for i, a in enumerate(args)})
                return b
            e["args"] = args
        elif k in ("opt", "and", "not", "sl", "quiet"): e["n"] = sub(e["n"], env)
        elif k == "rep":
            e["n"] = sub(e["n"], env)
            if e["sep"]: e["sep"] = sub(e["sep"], env)
        elif k == "seq": e["es"] = [dict(x, e=sub(x["e"], env)) for x in e["es"]]
        elif k == "alt": e["ns"] = [sub(x, env) for x in e["ns"]]
        elif k == "prec": e["levels"] = [[dict(op, es=[dict(x, e=sub(x["e"], env)) for x in op["es"]]) for op in lv] for lv in e["levels"]]
        return e
    rules = [Rule(r.name, r.ret, sub(r.body, {}), r.params, r.cache, r.pub, r.noeof) for r in g.rules if r.name not in tm]
    return Grammar(name, rules, g.itype, g.gargs) if hit[0] else None

def c11(ctx):
    prof = profile(tmpl=0.85, par=10, call=9, gargs=0.6, dyn=0.8, bound=0.6, memo=0.25, nrules=(3, 5), shadow=0, cond=2, quiet=0.8)
    base = items_random(ctx, "rand", ctx.n(150, 1300), prof, ("str", "u8", "tok"), ninp=22, multibyte=0.15)
    items, group, alone = [], {}, set()
    for gi, it in enumerate(base):
        g2 = inline(it.g, it.g.name + "i")
        if g2:
            group[len(items)] = (gi, True); items.append(Item(g2, it.entries, it.inputs)); items[-1].lenient = True
            group[len(items)] = (gi, False)
        else: group[len(items)] = (gi, True); alone.add(len(items))
        items.append(it)
    cur = tmpl_curated(ctx) + X.far_kinds(ctx) + X.param_items(ctx) + X.entry_items(ctx, ctx.n(16, 150), profile(gargs=0.5)) + X.sibling_items(ctx) + X.silence_items(ctx, "c11", ctx.n(10, 150)) + X.argument_items(ctx)
    for it in cur: group[len(items)] = (-1, True); alone.add(len(items)); items.append(it)
    sf = same_as_first(group)
    group["loose"] = False
    def judge(cases, rec, mis):
        yield from sf(cases, rec, mis)
        for k, (d, t) in sorted(mis.items()):     # values of parameters, on their own
            if d & {"RES", "END", "VAL", "ABORT"}: yield k, ",".join(sorted(d)), "expected %s, got %s" % (t, json.dumps(rec[k][:2], ensure_ascii=False))
            elif cases[k][0] in alone and cases[k][0] >= len(items) - len(cur): yield k, ",".join(sorted(d)), "expected %s, got %s" % (t, json.dumps(rec[k][:2], ensure_ascii=False))
    run_items(ctx, "a", items, set(), judge=judge)
    ctx.count("inlined_pairs", sum(1 for x in group if x != "loose" and not group[x][1]))
    findings_args(ctx)
    return finish(ctx, "model_checking", assumptions=COMMON)

def tmpl_curated(ctx):
    """Hand-written texts whose syntax trees are given separately: generics, forwarded parameters, nesting."""
    out = []
    V_ = "V"
    # generic templates with and without turbofish
    lst = lambda x, sep: star(par(x), par(sep))
    rules = [Rule("list", "Vec<T>", star(par("x"), par("s")), [("x", "rule:T"), ("s", "rule:U")], generics="<T>"),
             Rule("two", "(T, U)" if False else "V", seq([el(par("a"), "p"), el(par("b"), "q")], node("two", ["p", "q"])), [("a", "rule:V"), ("b", "rule:V")]),
             Rule("wrap", "V", seq([lit("<"), el(par("x"), "v"), lit(">")], node("w", ["v"])), [("x", "rule:V")]),
             Rule("fwd", "V", call("wrap", [{"k": "e", "e": par("x")}]), [("x", "rule:V")]),
             Rule("fwd2", "V", alt(call("two", [{"k": "e", "e": call("fwd", [{"k": "e", "e": par("x")}])}, {"k": "e", "e": par("x")}]), call("fwd", [{"k": "e", "e": par("x")}])), [("x", "rule:V")]),
             Rule("n", "V", seq([el(pat("12"), "c")], node("n", ["c"]))),
             Rule("rep", "V", seq([el(rep(par("x"), bv("k", "num"), bv("k", "num"), None, "exact"), "r")], node("r", ["r", "k"])), [("k", "num"), ("x", "rule:V")]),
             Rule("cnt2", "V", call("rep", [{"k": "x", "x": "k"}, {"k": "e", "e": call("rep", [{"k": "x", "x": "k"}, {"k": "e", "e": seq([el(pat("12"), "c")], node("in", ["c", "k"]))}])}]), [("k", "num")]),
             Rule("seen", "V", seq([el(pat("12"), "c"), el(call("wrap", [{"k": "e", "e": seq([el(pat("12"), "d")], cond("eq", ["c", "d"], "same", x="c", y="d", msg="same digit"))}]), "x")], node("s", ["c", "x"]))),
             Rule("tern", "V", seq([el(call("list", [{"k": "e", "e": call("fwd", [{"k": "e", "e": call("n")}])}, {"k": "e", "e": lit(",")}]), "l")], node("l", ["l"]))),
             Rule("unit", "V", seq([el(call("list", [{"k": "e", "e": lit("1")}, {"k": "e", "e": alt(lit(","), not_(lit(",")))}]), "l")], node("u", ["l"]))),
             Rule("turbo", "V", seq([el(dict(call("list", [{"k": "e", "e": call("n")}, {"k": "e", "e": lit(",")}]), turbo="::<V>"), "l")], node("tb", ["l"])))]
    tops = [call("tern"), call("unit"), call("turbo"), call("fwd2", [{"k": "e", "e": call("n")}]), call("cnt2", [{"k": "v", "v": "#2"}]), call("cnt2", [{"k": "v", "v": "#1"}]), call("cnt2", [{"k": "v", "v": "#0"}]), call("seen"),
            seq([el(call("wrap", [{"k": "e", "e": call("wrap", [{"k": "e", "e": alt(call("n"), call("fwd", [{"k": "e", "e": call("n")}]))}])}]), "x")], node("y", ["x"]))]
    g, ents = multi("tmplc", [(t, True) for t in tops], "str", extra=rules)
    rng = ctx.rng("tw")
    ws = ["", "1", "<1>", "<1>,<2>", "<1>,<2>,", "<1>2", "<1><2>", "1,2", "1,1,1", "11", "1,11", "1122", "112", "1212", "2", "1<1>", "1<2>", "2<2>", "<<1>>", "<<<1>>>", "<<2", "<<2>", "<12>", "<1>,<", "<1>,<x>"]
    ws += ["".join(rng.choice("12<>,") for _ in range(rng.randint(2, 7))) for _ in range(30)]
    out.append(Item(g, ents, [(e, s) for e in range(len(ents)) for s in dict.fromkeys(ws)]))
    # grammar arguments in called rules, templates, closures and memoised rules
    for a, b in ((1, 2), (2, 0), (0, 3)):
        ga = [("ga0", a), ("ga1", b)]
        rules = [Rule("k", "V", seq([el(rep(pat("12"), bv("ga0", "num"), bv("ga0", "num"), None, "exact"), "x")], node("k", ["x", "ga1"])), cache="memo"),
                 Rule("t", "V", seq([el(par("x"), "v"), el(opt(call("k")), "o")], node("t", ["v", "o", "ga0"])), [("x", "rule:V")]),
                 Rule("in", "V", call("t", [{"k": "e", "e": seq([el(rep(lit("<"), NB, bv("ga1", "num")), "m"), el(call("k"), "k")], node("c", ["m", "k", "ga0", "ga1"]))}]))]
        tops = [call("k"), call("in"), alt(seq([el(call("k"), "x"), lit(">")], node("a", ["x"])), seq([el(call("k"), "x"), lit("<")], node("b", ["x"])), call("in"))]
        g, ents = multi("garg%d%d" % (a, b), [(t, True) for t in tops], "str", extra=rules, gargs=ga)
        ws2 = ["".join(w_) for n in range(4) for w_ in words_of("1<>", n)] + ["<<12", "<<<12", "1221", "112<", "1>"]
        out.append(Item(g, ents, [(e, s) for e in range(len(ents)) for s in dict.fromkeys(ws2)]))
    # three and four of them, told apart at every depth of calls
    gs = ["ga0", "ga1", "ga2", "ga3"]
    for vals in ((1, 2, 0), (0, 1, 2), (3, 1, 2, 0), (1, 0, 2, 3)):
        ga = list(zip(gs, vals)); n = len(ga)
        see = lambda tag, l: node(tag, l + gs[:n])
        rules = [Rule("d1", "V", seq([el(pat("12"), "c")], see("d1", ["c"]))),
                 Rule("d2", "V", seq([lit("<"), el(call("d1"), "x")], see("d2", ["x"])), cache="memo"),
                 Rule("d3", "V", seq([lit("<"), el(call("d2"), "x")], see("d3", ["x"]))),
                 Rule("w", "V", seq([el(par("x"), "v"), lit(">")], see("w", ["v"])), [("x", "rule:V")]),
                 Rule("l", "V", alt(seq([el(call("l"), "p"), lit("+"), el(call("d1"), "q")], see("l", ["p", "q"])), call("d1")), cache="lr"),
                 Rule("r", "V", seq([el(rep(par("x"), bv("k", "num"), bv("k", "num"), None, "exact"), "v")], see("r", ["v", "k"])), [("k", "num"), ("x", "rule:V")])]
        W = lambda e: call("w", [{"k": "e", "e": e}])
        R_ = lambda k, e: call("r", [{"k": "x", "x": k}, {"k": "e", "e": e}])
        tops = [call("d1"), call("d2"), call("d3"), W(call("d2")), W(W(call("d1"))), W(seq([el(call("d2"), "a"), el(opt(lit("<")), "b")], see("c", ["a", "b"]))), call("l")]
        tops += [R_(x, call("d1")) for x in gs[:n]] + [R_(x, R_(y, W(call("d1")))) for x in gs[:n] for y in gs[:n] if x != y][:4]
        g, ents = multi("gargs" + "".join(map(str, vals)), [(t, True) for t in tops], "str", extra=rules, gargs=ga)
        ws3 = ["1", "<1", "<<2", "<1>", "1>>", "2>", "1+2", "1+2+1", "12", "121", "112", "1>2>", "1>2>1>", "1>1>1>1>2>1>", "<1<", "<1<>", "", "1+", "<<", "2>>>"]
        out.append(Item(g, ents, [(e, s) for e in range(len(ents)) for s in ws3]))
    return out

def findings_args(ctx):
    """A label named like a grammar argument replaces the argument in rules called later (known finding)."""
    src = """peg::parser!{ pub grammar lab(ga0: u32) for str {
  rule b() -> V = "x"*<{ ga0 as usize }> { nd("b", vec![ga0.v()]) }
  pub rule main() -> V = ga0:n() v:b() { nd("m", vec![v.v()]) }
  rule n() -> u32 = ['0'..='9'] { 3 }
} }
"""
    g = Grammar("lab", [Rule("b", "V", seq([el(rep(lit("x"), bv("ga0", "num"), bv("ga0", "num"), None, "exact"))], node("b", ["ga0"]))),
                        Rule("main", "V", seq([el(call("n")), el(call("b"), "v")], node("m", ["v"])), pub=True),
                        Rule("n", "V", seq([pat("0123456789")], node("n", [])))], "str", [("ga0", 1)])
    it = Item(g, [("main", 0)], [(0, "1x"), (0, "1xxx"), (0, "1"), (0, "x")], src=src)
    n = len(ctx.problems)
    def judge(cases, rec, mis):
        for k, (d, t) in sorted(mis.items()):
            if d & {"RES", "VAL", "ABORT"}: yield k, ",".join(sorted(d)), t
    run_items(ctx, "lab", [it], set(), judge=judge)
    for i in range(n, len(ctx.problems)):
        rp = ctx.problems[i][2]
        if rp["input"] == "1x" and rp["recorded"][0] == "E" or rp["input"] == "1xxx" and rp["recorded"] == ["O", ["m(b(#3))"]]: rp["finding"] = "label-shadows-grammar-argument"

# ------------------------------------------------------------------ C15
def c15(ctx):
    tr = items_random(ctx, "tr", ctx.n(110, 900), profile(memo=0.3, lr=0.1, prec=1, tmpl=0.4, gargs=0.2), ("rec",), ninp=12, maxlen=10, exhaustive=14, multibyte=0.3)
    tr += family_items(ctx, "fam", pick(ctx, "fam", family(), ctx.n(70, 2000)), words=[w_ for n in range(4) for w_ in words_of("ab", n)], itype="rec")
    run_items(ctx, "t", tr, {"ABORT"}, trace="in", denote=False)
    # the same grammar over four input types
    rng = ctx.rng("types")
    items, group = [], {}
    for i in range(ctx.n(45, 400)):
        g = Gen(rng, profile(lit=0 if i % 2 else 5, met=0 if i % 2 else 0.4, extra="12+,", pos=0, cus=0), "tok" if i % 2 else "str", "ty%d" % i).grammar()
        ins = [s for s in inputs(g, rng, 18, exhaustive=20)]
        for t in (["str", "u8", "tok", "rec"] if i % 2 else ["str", "u8", "rec"]):
            g2 = Grammar("ty%d_%s" % (i, t), g.rules, t, g.gargs)
            group[len(items)] = (i, t == "str")
            items.append(Item(g2, ENTRIES, [(e, s) for s in ins for e in (0, 1)]))
    def judge(cases, rec, mis):
        base = {}
        for k, (u, e, s) in enumerate(cases):
            if group[u][1] and k in rec: base[(group[u][0], e, s)] = k
        for k, (u, e, s) in enumerate(cases):
            b = base.get((group[u][0], e, s))
            if b is None or k not in rec or b == k: continue
            d1, d0 = mis.get(k, (set(), ""))[0] - {"LC"}, mis.get(b, (set(), ""))[0] - {"LC"}
            if d1 != d0: yield k, ",".join(sorted(d1 ^ d0)), "not the outcome of the same grammar over str: %s / %s (%s)" % (json.dumps(rec[k][:2], ensure_ascii=False), json.dumps(rec[b][:2], ensure_ascii=False), mis.get(k, mis.get(b))[1])
    run_items(ctx, "ty", items, set(), judge=judge)
    return finish(ctx, "model_checking", assumptions=COMMON)

# ------------------------------------------------------------------ C16
def c16(ctx):
    mk = lambda: items_random(ctx, "tr", ctx.n(130, 1000), profile(call=9, memo=0.35, lr=0.12, prec=1.2, tmpl=0.4, gargs=0.2, nrules=(2, 5)), ("str", "u8", "rec"), ninp=14, maxlen=9, exhaustive=16, multibyte=0.3) + lr_curated(ctx, "str", True) + X.silence_items(ctx, "c16", ctx.n(16, 160))
    _, cases, rec1 = run_items(ctx, "on", mk(), {"ABORT"}, features=("trace",), trace="rule", denote=False, agree=0)
    _, cases2, rec0 = run_items(ctx, "off", mk(), {"ABORT"}, denote=False)
    n = 0
    items = mk()
    for k in rec0:
        if k not in rec1: continue
        n += 1
        if rec0[k][:2] != rec1[k][:2]:
            u, e, s = cases[k]
            ctx.problem("DIFF", "result with trace %s, without %s" % (rec1[k][:2], rec0[k][:2]), grammar=items[u].unit.src, rule=items[u].entries[e][0], input=s)
        if any(l.startswith("[PEG_TRACE]") for l in rec0[k][2]):
            u, e, s = cases[k]
            ctx.problem("NOISE", "trace lines without the trace feature", grammar=items[u].unit.src, rule=items[u].entries[e][0], input=s)
    ctx.count("outcomes_compared_with_and_without", n)
    return finish(ctx, "model_checking", assumptions=COMMON)

# ------------------------------------------------------------------ C19
def has_cond(e, ops): return any(x["k"] == "seq" and x["a"]["k"] == "cond" and x["a"]["op"] in ops for x in walk(e))

def c19(ctx):
    flags = {"RES", "ABORT", "END", "VAL", "LOC", "EXP", "EOF"}
    prof = profile(cond=14, cus=6, met=4, act=3, quiet=0, not_=0.5, and_=0.5, fail=0, pos=1, bind=0.4, memo=0.1, tmpl=0.3)
    items = items_random(ctx, "rand", ctx.n(190, 1600), prof, ("str", "str", "u8", "tok", "rec"), ninp=26, multibyte=0.3)
    conds = []
    for f in range(3):
        for op, kw in (("eq", dict(x="c", v="'a")), ("ne", dict(x="c", v="'a")), ("no", {}), ("yes", {}), ("same", dict(x="c", y="d"))):
            es = [el(pat("ab"), "c"), el(pat("ab"), "d")]
            c = seq(es, cond("k", ["c", "d"], op, msg="m%d" % f, form=f, **kw))
            conds += [c, alt(c, seq([el(pat("ab"), "c")], node("e", ["c"]))), star(c), opt(c), seq([el(c, "x"), el(pos(), "p")], node("s", ["x", "p"])),
                      seq([el(and_(c), "x"), el(pat("", any_=1), "y")], node("la", ["x", "y"])), seq([not_(c), el(pat("", any_=1), "y")], node("nl", ["y"])), seq([lit("a"), el(opt(c), "x"), lit("b")], node("o", ["x"])),
                      alt(seq([lit("a"), el(c, "x")], cond("kk", ["x"], "no", msg="outer", form=f)), seq([el(star(pat("", any_=1)), "x")], node("rest", ["x"])))]
    for m in (cus("take", 1), cus("take", 2), cus("never"), cus("rest"), cus("here"), cus("end"), cusm("take", 1), cusm("take", 2), cusm("never"), cusm("rest"), cusm("here"), cusm("end"), cus("back", 1), cusm("back", 1), cusm("back", 2)):
        l = lambda e, t: seq([el(e, "x")], node(t, ["x"]))
        conds += [seq([el(m, "x"), el(pos(), "p")], node("s", ["x", "p"])), seq([lit("a"), el(m, "x")], node("t", ["x"])), alt(seq([lit("a"), el(m, "x"), lit("b")], node("u", ["x"])), l(opt(pat("", any_=1)), "v")),
                  l(opt(m), "w"), l(rep(m, bi(0), bi(2)), "r"), seq([lit("a"), el(pat("ab"), "c"), el(m, "x"), el(pat("ab"), "d"), el(pos(), "p")], node("bk", ["c", "x", "d", "p"])), seq([el(star(pat("ab")), "c"), el(quiet(m), "x"), el(not_(lit("b"))), el(opt(m), "y"), el(lit("a"))], node("bq", ["c", "x", "y"])), seq([not_(m), el(pat("", any_=1), "q")], node("n", ["q"])), l(and_(m), "la")]
    for s_ in ("a", "ab", "b"):
        conds += [seq([el(met(s_)), el(pos(), "p")], node("s", ["p"])), seq([lit("a"), el(met(s_)), el(opt(lit("b")), "o")], node("t", ["o"])), seq([el(star(met(s_)), "l")], node("u", ["l"])), seq([not_(met(s_)), el(pat("", any_=1), "q")], node("n", ["q"]))]
    items += X.token_items(ctx) + X.far_kinds(ctx) + X.text_items(ctx) + X.odd_items(ctx, "c", [e for e in conds if all(x["k"] not in ("cus",) for x in walk(e)) and not has_cond(e, ("eq", "ne"))], ctx.n(40, 400))
    for it in ("str", "u8", "rec"):
        items += family_items(ctx, "c" + it, pick(ctx, "cp" + it, conds, ctx.n(150, 10000)), alphabet="ab", maxlen=4, itype=it, used=True)
    run_items(ctx, "a", items, flags)
    return finish(ctx, "model_checking", assumptions=COMMON)

import extremes as X
