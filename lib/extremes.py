"""Families at the edges of size and alphabet: far positions, hundreds of elements, tokens or
levels, unusual characters, the same rule called side by side."""
from core import *
import parsechecks as P

A_ = lambda e: {"k": "e", "e": e}
N_ = lambda n: {"k": "v", "v": "#%d" % n}
S_ = lambda s: {"k": "s", "s": s}

def far_items(ctx, tag, n, prof, itypes=("str", "u8", "rec"), ninp=8, dists=(255, 65534, 65535, 65536)):
    """Ordinary grammars reached only after a long stretch of input."""
    rng = ctx.rng(tag)
    out = []
    prof = dict(prof, cus=0)
    for i in range(n):
        it = itypes[i % len(itypes)]
        d = rng.choice(dists)
        g = Gen(rng, prof, it, "far_%s_%d" % (tag, i)).grammar()
        ins = inputs(g, rng, ninp, exhaustive=3, maxlen=10)
        g.rules = [r for r in g.rules if not r.pub]
        g.rules.append(Rule("far", "V", seq([cus("skip", d) if i % 3 else rep(pat("", any_=1), bi(d), bi(d), None, "exact") if d < 1000 else cus("skip", d), el(call("r0"), "v")], node("far", ["v"]))))
        add_entries(g.rules, "far")
        out.append(Item(g, ENTRIES, [(k % 2, "x" * d + s) for k, s in enumerate(ins)]))
    return out + far_kinds(ctx)

def far_kinds(ctx):
    """Every kind of expression at a distance, after it has been tried at the start."""
    L = lambda: el(lit("a"))
    K = [("lit", None, seq([el(lit("ab")), el(pos(), "p")], node("l", ["p"]))), ("pat", None, seq([el(pat("ab"), "c"), el(pat("a", inv=1), "d")], node("p", ["c", "d"]))),
         ("any", None, seq([el(pat("", any_=1), "c"), el(pat("", any_=1), "d")], node("y", ["c", "d"]))), ("pos", None, seq([el(pos(), "p"), el(opt(lit("a"))), el(pos(), "q")], node("o", ["p", "q"]))),
         ("sl", None, seq([el(sl(seq([lit("a"), star(pat("ab"))])), "s"), el(pos(), "p")], node("s", ["s", "p"]))), ("slr", None, seq([el(sl(rep(pat("ab"), bi(1), bi(2))), "s"), el(sl(opt(lit("b"))), "t")], node("s2", ["s", "t"]))),
         ("opt", None, seq([el(opt(seq([el(lit("a")), el(pos(), "p"), el(lit("b"))], node("i", ["p"]))), "x"), el(pos(), "q")], node("q", ["x", "q"]))),
         ("star", None, seq([el(star(seq([el(pat("ab"), "c"), el(pos(), "p")], node("i", ["c", "p"]))), "xs")], node("r", ["xs"]))),
         ("sep", None, seq([el(star(seq([L(), el(pos(), "p")], node("i", ["p"])), lit("b")), "xs"), el(pos(), "q")], node("e", ["xs", "q"]))),
         ("bnd", None, seq([el(rep(pos_after(), bi(2), bi(3), lit("b")), "xs"), el(pos(), "q")], node("b", ["xs", "q"]))),
         ("and", None, seq([el(and_(seq([L(), el(pos(), "p")], node("i", ["p"]))), "x"), el(pos(), "q"), el(star(pat("ab")))], node("a", ["x", "q"]))),
         ("not", None, seq([el(not_(seq([lit("a"), lit("b")]))), el(pat("ab"), "c"), el(not_(lit("b")))], node("n", ["c"]))),
         ("alt", None, alt(seq([el(lit("aa")), el(pos(), "p")], node("x", ["p"])), seq([L(), el(lit("b")), el(pos(), "p")], node("y", ["p"])), seq([L()], node("z", [])))),
         ("qui", None, alt(quiet(seq([L(), el(lit("b")), el(lit("a"))], node("x", []))), seq([L(), el(quiet(opt(lit("a")))), el(lit("b"))], node("y", [])), fail("word"))),
         ("cnd", None, seq([el(pat("ab"), "c"), el(pat("ab"), "d")], cond("c", ["c", "d"], "same", x="c", y="d", msg="twins"))),
         ("cus", None, seq([el(cus("take", 2), "t"), el(pos(), "p")], node("u", ["t", "p"]))),
         ("mem", None, seq([el(call("m"), "x"), el(opt(call("m")), "y"), el(pos(), "p")], node("mm", ["x", "y", "p"]))), ("rec", None, seq([el(call("lr"), "x"), el(pos(), "p")], node("g", ["x", "p"]))),
         ("par", None, seq([el(call("t", [A_(seq([L(), el(pos(), "p")], node("i", ["p"]))), A_(lit("b"))]), "x")], node("v", ["x"]))), ("pre", None, seq([el(call("ops"), "x"), el(pos(), "p")], node("w", ["x", "p"])))]
    op = lambda ki, x, t, **kw: dict(dict(ki=ki, es=[el(lit(x))], t=t, args=[], la="", ra="", assoc="l"), **kw)
    aux = lambda: [Rule("m", "V", alt(seq([L(), el(pos(), "p"), el(not_(lit("a")))], node("m", ["p"])), seq([el(lit("b"))], node("mb", []))), cache="memo"),
           Rule("lr", "V", alt(seq([el(call("lr"), "l"), el(lit("b")), el(call("m"), "r"), el(pos(), "p")], node("lr", ["l", "r", "p"])), call("m")), cache="lr"),
           Rule("t", "V", seq([el(par("x"), "v"), el(par("s")), el(opt(par("x")), "w"), el(pos(), "p")], node("t", ["v", "w", "p"])), [("x", "rule:V"), ("s", "rule:U")]),
           Rule("ops", "V", prec([[op("infix", "b", "bin", args=["l", "r"], la="l", ra="r")], [op("postfix", "!", "post", args=["l"], la="l"), op("prefix", "-", "pre", args=["r"], ra="r")],
                                  [dict(op("atom", "a", "at"))]], wrap="w"))]
    tails = ["", "a", "b", "ab", "aa", "ba", "bb", "aab", "aba", "abab", "abb", "a!b-a", "az", "abz", "ababa", "-"]
    out = []
    for k, (it, d) in enumerate([("str", 65536), ("u8", 65536), ("rec", 65536), ("str", 256)]):
        rules, ents, ins = aux(), [], []
        for n, _, e in K:
            if n == "cus" and it == "tok": continue
            rules.append(Rule(n, "V", json.loads(json.dumps(e))))
            go = lambda: seq([el(opt(and_(call(n)))), el(cus("skip", d)), el(call(n), "v"), el(pos(), "e")], node("top", ["v", "e"]))
            for pre, no in (("f_", False), ("p_", True)):
                rules.append(Rule(pre + n, "V", go(), pub=True, noeof=no)); ents.append((pre + n, 1 if no else 0))
                ins += [(len(ents) - 1, "x" * d + s) for s in ctx.rng("fk%d%s%s" % (k, n, pre)).sample(tails, ctx.n(5, 16))]
        out.append(Item(Grammar("fk%d" % k, rules, it), ents, ins))
    return out

ODDITIES = "\0\x01\x07\x08\t\n\x0b\x0c\r\x1a\x1b !\"#$%&'()*+-./09:;<=>?@AZ[\\]^_`az{|}~\x7f\x80\x85\xa0\xad\xc3\xe9\xff\u0100\u0131\u0300\u0301\u0483\u05d0\u0627\u07ff\u0800\u0e01\u200b\u200d\u200e\u2028\u2029\u202e\u20ac\u3000\u3042\ud7ff\ue000\ufe0f\ufeff\ufffd\ufffe\uffff\U00010000\U0001f600\U0001f3fd\U000e0001\U0010ffff"

def text_items(ctx, itypes=("str", "u8", "rec")):
    """Parsers that take any text, given all sorts of characters."""
    any1 = lambda: pat("", any_=1)
    K = [("whole", seq([el(sl(star(any1())), "s"), el(pos(), "p")], node("s", ["s", "p"]))), ("chars", seq([el(star(seq([el(any1(), "c"), el(pos(), "p")], node("i", ["c", "p"]))), "xs")], node("r", ["xs"]))),
         ("cut", seq([el(sl(any1()), "a"), el(sl(rep(any1(), bi(1), bi(2))), "b"), el(sl(star(any1())), "c"), el(pos(), "p")], node("t", ["a", "b", "c", "p"]))),
         ("until", seq([el(star(sl(seq([star(seq([not_(pat("\n;")), any1()])), pat("\n;")]))), "ls"), el(sl(star(any1())), "r")], node("u", ["ls", "r"]))),
         ("inv", seq([el(star(alt(seq([el(pat("ab \0\t", inv=1), "c")], node("o", ["c"])), seq([el(sl(plus(pat("ab \0\t"))), "s")], node("n", ["s"])))), "xs")], node("v", ["xs"]))),
         ("stop", seq([el(sl(star(pat("a", inv=1))), "s"), el(lit("a")), el(pos(), "p"), el(sl(star(any1())), "t"), el(lit("z"))], node("w", ["s", "p", "t"]))),
         ("one", seq([el(any1(), "c")], node("c", ["c"]))), ("none", seq([], node("z", []))), ("twin", seq([el(any1(), "c"), el(any1(), "d")], cond("c", ["c", "d"], "same", x="c", y="d", msg="twins")))]
    out = []
    for it in itypes:
        rng = ctx.rng("txt" + it)
        chars = [c for c in ODDITIES]
        ws = [""] + chars + ["a" + c for c in chars] + [c + "a" for c in chars] + [c + c for c in chars]
        ws += ["".join(rng.choice(chars) for _ in range(rng.randint(3, 9))) for _ in range(ctx.n(60, 2000))]
        ents, rules, ins = [], [], []
        for n, e in K:
            rules.append(Rule(n, "V", json.loads(json.dumps(e))))
            for pre, no in (("f_", False), ("p_", True)):
                rules.append(Rule(pre + n, "V", seq([el(call(n), "v"), el(pos(), "e")], node("top", ["v", "e"])), pub=True, noeof=no)); ents.append((pre + n, 1 if no else 0))
                ins += [(len(ents) - 1, w) for w in rng.sample(ws, min(len(ws), ctx.n(70, 10 ** 6)))]
        out.append(Item(Grammar("txt_" + it, rules, it), ents, ins))
    return out

def entry_items(ctx, n, prof):
    """Public rules with parameters and type parameters, ended and not, with and without a result."""
    def tweak(g, rng):
        at_ = rng.choice(g.alphabet() or ["a"])
        body = lambda: seq([el(call("r0"), "v"), el(rep(pat(at_), bv("k", "num"), bv("m", "num"), None, ""), "x"), el(opt(metx("w")), "o")], node("pp", ["v", "x", "k", "o", "m"])) if g.itype != "tok" else seq([el(call("r0"), "v"), el(rep(pat(at_), bv("k", "num"), bv("m", "num"), None, ""), "x")], node("pp", ["v", "x", "k", "m"]))
        ps = [("k", "num"), ("w", "str"), ("m", "num")]
        rng.shuffle(ps)
        g.ps = ps
        g.rules.append(Rule("par", "V", body(), list(ps), pub=True))
        g.rules.append(Rule("parn", "V", seq([el(call("par", [{"k": "y" if t == "str" else "x", "x": x} for x, t in ps]), "v"), el(pos(), "e")], node("top", ["v", "e"])), list(ps), pub=True, noeof=True))
        g.rules.append(Rule("paru", None, call("par", [{"k": "y" if t == "str" else "x", "x": x} for x, t in ps]), list(ps), pub=True))
        g.rules.append(Rule("gen", "V", call("r0"), [("z", "any")], pub=True, generics="<T: Copy>"))
        g.rules.append(Rule("gen2", "V", seq([el(call("r0"), "v"), el(pos(), "e")], node("top", ["v", "e"])), [("z", "any"), ("y", "num")], pub=True, noeof=True, generics="<T: Copy + 'static>"))
        g.rules.append(Rule("one", "V", seq([el(call("r0"), "v"), el(rep(pat(at_), bv("k", "num"), bv("k", "num"), None, "exact"), "x")], node("on", ["v", "x"])), [("k", "num")], pub=True))
    out = P.items_random(ctx, "entp", n, prof, ("str", "u8", "tok", "rec"), ninp=12, tweak=tweak, exhaustive=16, multibyte=0.2)
    rng = ctx.rng("entp2")
    for it in out:
        w = rng.choice(it.g.alphabet() or ["a"])
        def args(k, m):
            vs = {"k": (str(k), N_(k)), "w": (lit_src(w), S_(w)), "m": (str(m), N_(m))}
            return "".join(", " + vs[x][0] for x, _ in it.g.ps), [vs[x][1] for x, _ in it.g.ps]
        ents = []
        for fn, no in (("par", 0), ("parn", 1), ("paru", 0)):
            for k, m in rng.sample([(0, 0), (0, 1), (0, 2), (1, 1), (1, 3)], 2): ents.append((fn, no) + args(k, m))
        ents += [("gen", 0, ", \"x\"", [N_(0)]), ("gen2", 1, ", 'c', 7", [N_(0), N_(7)]), ("one", 0, ", 0", [N_(0)]), ("one", 0, ", 1", [N_(1)])]
        ws = list(dict.fromkeys(s for _, s in it.inputs))
        ws = list(dict.fromkeys(ws + [s + w for s in ws[:6]]))
        it2 = Item(it.g, ents, [(e, s) for s in ws for e in range(len(ents))])
        out[out.index(it)] = it2
    return out

def pos_after(): return seq([el(lit("a")), el(pos(), "p")], node("i", ["p"]))

def bytes_items(ctx):
    """Slices of bytes, with literals and patterns beyond ASCII."""
    ps = [lambda: lit("é"), lambda: lit("a"), lambda: lit("\0"), lambda: pat("\xc3"), lambda: pat("\xa9\x80\0"), lambda: pat("\xc3", inv=1), lambda: pat("", any_=1), lambda: sl(lit("€")), lambda: lit("aé"), lambda: pat("\xff\x7f\x80", inv=1)]
    ex = [x() for x in ps] + [f(x()) for x in ps for f in (opt, star, sl, not_, and_)] + [seq([el(x(), "p"), el(y(), "q")], node("s", ["p", "q"])) for x in ps for y in ps] + [alt(seq([x(), y()]), lit("é")) for x in ps for y in ps]
    ws = ["", "a", "é", "aé", "éa", "éé", "€", "a€", "\0", "é\0", "\0é", "aé\0", "\x7f", "\x80", "ÿ", "é€"]
    return P.family_items(ctx, "byt", [e for e in ex if P.legal(e)], itype="u8", words=ws)


TAILS = ["\0", "\0\0", " ", "  ", "\n", "\r\n", "\t", "\u2028", "\ufeff", "\u0301", "\x7f", "\xa0", "\u200b", "a\0", " a", "\0a", "é", "𝄞", ";", "\x1a", "//", "#"]

def tail_items(ctx, itypes=("str", "u8", "rec", "tok")):
    """A full match followed by something easily mistaken for nothing."""
    out = []
    ex = [lambda: lit("a"), lambda: star(lit("a")), lambda: plus(pat("a")), lambda: sl(star(pat("ab"))), lambda: opt(lit("ab")), lambda: seq([lit("a"), opt(lit("b"))]), lambda: quiet(star(lit("a"))), lambda: pos(),
          lambda: rep(pat("a"), NB, bi(2)), lambda: star(lit("a"), lit(" ")), lambda: star(alt(lit("a"), lit("\0"))), lambda: seq([star(lit("a")), star(pat(" "))]), lambda: seq([not_(lit("b")), opt(pat("", any_=1))])]
    tx = [lambda: pat("a"), lambda: star(pat("a")), lambda: plus(pat("ab")), lambda: sl(star(pat("ab"))), lambda: pos(), lambda: rep(pat("a"), NB, bi(2)), lambda: opt(pat("a")), lambda: star(pat("a"), pat(","))]
    for it in itypes:
        rules, ents = [], []
        for i, e in enumerate(tx if it == "tok" else ex):
            for eof in (0, 1):
                x = e()
                rules.append(Rule("x%d_%d" % (i, eof), "V", seq([el(x, "v"), el(pos(), "e")], node("top", ["v", "e"])), pub=True, noeof=bool(eof)))
                ents.append((rules[-1].name, eof))
        ws = ["", "a", "aa", "ab"] + [h + t for h in ("", "a", "aa", "ab") for t in (["z", "c", ",", "zz"] if it == "tok" else TAILS)]
        # a little more than a power of two, and exactly it
        ws += ["a" * n + t for n in (7, 8, 31, 32, 63, 64, 65, 127, 128, 255, 256, 1000) for t in ("", "c", "a,", "cc")]
        out.append(Item(Grammar("tails_" + it, rules, it), ents, [(e, s) for e in range(len(ents)) for s in ws]))
    return out

def sibling_items(ctx):
    """The same rule or template side by side, with and without differing arguments."""
    rules = [Rule("d", "V", seq([el(pat("12"), "c")], node("d", ["c"]))),
             Rule("t", "V", seq([el(par("x"), "p"), el(par("y"), "q")], node("t", ["p", "q"])), [("x", "rule:V"), ("y", "rule:V")]),
             Rule("n", "V", seq([el(rep(pat("12"), bv("k", "num"), bv("k", "num"), None, "exact"), "v"), lit(";")], node("n", ["v", "k"])), [("k", "num")]),
             Rule("s", "V", seq([el(metx("w"), "v"), el(pos(), "p")], node("s", ["p"])), [("w", "str")]),
             Rule("l", "Vec<T>", star(par("x"), par("s")), [("x", "rule:T"), ("s", "rule:U")], generics="<T, U>"),
             Rule("o", "V", seq([el(opt(par("x")), "v")], node("o", ["v"])), [("x", "rule:V")])]
    c = lambda s: seq([el(pat(s), "c")], node("c" + str(len(s)), ["c"]))
    T = lambda x, y: call("t", [A_(x), A_(y)])
    pairs = [(lambda: T(c("1"), c("2")), lambda: T(c("2"), c("1"))), (lambda: T(c("1"), c("1")), lambda: T(c("1"), c("2"))), (lambda: call("n", [N_(1)]), lambda: call("n", [N_(2)])), (lambda: call("n", [N_(2)]), lambda: call("n", [N_(1)])),
             (lambda: call("s", [S_("1")]), lambda: call("s", [S_("12")])), (lambda: call("s", [S_("12")]), lambda: call("s", [S_("1")])), (lambda: call("o", [A_(c("1"))]), lambda: call("o", [A_(c("2"))])), (lambda: call("d"), lambda: call("d")),
             (lambda: T(call("d"), c("1")), lambda: T(call("d"), c("2")))]
    ex = []
    for a, b in pairs:
        ex += [alt(a(), b()), alt(a(), b(), a()), seq([el(a(), "p"), el(b(), "q")], node("two", ["p", "q"])), seq([el(b(), "p"), el(a(), "q"), el(opt(b()), "r")], node("thr", ["p", "q", "r"])), alt(seq([el(a(), "p"), lit("!")], node("e", ["p"])), seq([el(b(), "p"), lit("!")], node("f", ["p"])), a()),
               seq([el(and_(a()), "p"), el(b(), "q")], node("la", ["p", "q"])), seq([el(not_(a())), el(b(), "q")], node("na", ["q"])), seq([el(star(alt(a(), b())) if a()["r"] != "o" else opt(alt(a(), b())), "xs")], node("xs", ["xs"])),
               seq([el(opt(a()), "p"), el(opt(b()), "q")], node("oo", ["p", "q"])), seq([el(sl(a()), "p"), el(sl(b()), "q")], node("ss", ["p", "q"])), T(alt(a(), b()), alt(b(), a()))]
    g, ents = P.multi("sib", [(e, True) for e in ex], "str", extra=rules)
    rng = ctx.rng("sib")
    ws = ["", "1", "2", "12", "21", "11", "1;", "12;", "1;12;", "12;1;", "1!", "12!", "21!", "1221", "2112", "1;!", "12;!", "112", "121", "1212"] + ["".join(rng.choice("1122;!") for _ in range(rng.randint(3, 7))) for _ in range(20)]
    return [Item(g, ents, [(e, s) for e in range(len(ents)) for s in dict.fromkeys(ws)])]

def count_items(ctx, n):
    """Hundreds of elements, against bounds of that size."""
    rng = ctx.rng("cnt")
    ex = []
    for b in (lambda: pat("ab"), lambda: lit("a"), lambda: seq([el(pat("a"), "q"), el(opt(lit("b")), "r")], node("i", ["q", "r"]))):
        for k in (255, 256, 257, 300):
            for s in (None, lit(",")):
                ex += [(rep(b(), bi(k), bi(k), s, "exact"), s, k), (rep(b(), bi(k), NB, s), s, k), (rep(b(), NB, bi(k), s), s, k), (rep(b(), bi(k - 2), bi(k + 1), s), s, k), (rep(b(), bi(2), bi(k), s), s, k)]
        for s in (None, lit(",")): ex += [(star(b(), s), s, 300), (plus(b(), s), s, 256), (sl(star(b(), s)), s, 300)]
    out = []
    for j, (e, s, k) in enumerate(P.pick(ctx, "cnt", ex, n)):
        rules = [Rule("x0", "V", seq([el(e, "v"), el(pos(), "e")], node("top", ["v", "e"])), pub=True, noeof=True), Rule("x1", "V", seq([el(e), el(pos(), "e")], node("top", ["e", "e"])), pub=True, noeof=True), Rule("x2", "V", seq([el(e)], node("t", [])), pub=True)]
        sep = "," if s else ""
        ws = [sep.join("a" * m) + t for m in {1, 2, k - 3, k - 2, k - 1, k, k + 1, k + 2, k - 256, 256} if m > 0 for t in ("", "," if s else "c")]
        out.append(Item(Grammar("cnt%d" % j, rules, "str"), [("x0", 1), ("x1", 1), ("x2", 0)], [(i % 3, w) for i, w in enumerate(ws)] + [((i + 1) % 3, w) for i, w in enumerate(ws)]))
    # the bound from an argument
    for k in (255, 256, 300):
        e = [rep(pat("ab"), bv("ga0", "num"), bv("ga0", "num"), None, "exact"), rep(pat("ab"), bv("ga0", "num"), NB, lit(",")), rep(lit("a"), NB, bv("ga0", "num"))]
        g, ents = P.multi("cntg%d" % k, [(x, i > 0) for i, x in enumerate(e)], "str", gargs=[("ga0", k)])
        out.append(Item(g, ents, [(e, c.join("a" * m)) for e, c in ((0, ""), (1, ","), (2, "")) for m in (k - 1, k, k + 1, k % 256)]))
    return out

def token_items(ctx):
    """Expected sets of many tokens, of tokens that contain each other, of odd tokens, and of one or two."""
    out = []
    rules, ents, ins = [], [], []
    def top(body, *ws):
        i = len(ents)
        rules.append(Rule("x%d" % i, "V", seq([el(body)], node("t", [])), pub=True)); ents.append(("x%d" % i, 0))
        ins.extend((i, w) for w in ws)
    big = lambda n, w: alt(*[lit("%s%03d" % (w, k)) for k in range(n)])
    for n in (2, 3, 31, 32, 33, 40, 64, 65, 128, 129, 257, 300): top(seq([lit("a"), big(n, "k")]), "", "a", "ab", "ak", "ak000", "ak001", "ak0019", "ak%03d" % (n - 1), "ak%03d" % n)
    for n in (40, 130): top(seq([el(star(lit("q"))), el(big(n, "k")), el(opt(big(n, "l"))), el(not_(lit("!")))]), "", "qq", "qqk000", "k001l0", "k001!", "k001l002x")
    # tokens which are prefixes, suffixes or case variants of each other
    pre = ["a", "ab", "abc", "b", "bc", "A", "AB", "a ", " a", "a,b", "a, b", "one of a", "EOF", "eof", "EO", "`", "'", "[", "]", "e\u0301", "é", "\0", "a\0", "\u200b", "\\n", "\n", "\r"]
    for i in range(0, len(pre), 3):
        for q in (pre[i:i + 2], pre[i + 1:i + 3], pre[i:i + 3], pre[i:i + 3][::-1], pre): top(alt(*[lit(x) for x in q]), "", "x", q[0], q[-1], q[0] + "x")
    # messages: empty, equal to tokens, with line breaks, quoting, braces
    msgs = ["", " ", "x", "\"x\"", "EOF", "one of", "line\nbreak", "{}", "{0}", "%s", "\\", "a\0b", "é", "\U0001d11e", "..", "expected", "<unreported>", "zzz", "zz", "z"]
    fq = lambda: quiet(lit("q"))     # what fixes the type
    for m in msgs: top(alt(lit("a"), fail(m)), "", "a", "b", "aa"); top(alt(fq(), fail(m)), "", "a"); top(seq([opt(lit("a")), opt(alt(fq(), fail(m))), lit("b")]), "", "a", "ab", "abb"); top(alt(seq([pat("a")], cond("c", [], "no", msg=m)), fail("other")), "", "a", "b")
    top(alt(fq(), *[fail(m) for m in msgs]), "", "x"); top(alt(fq(), *[fail(m) for m in msgs[::-1]]), "", "x")
    # one token, two tokens, EOF alone and with one other, nothing at all
    top(lit("a"), "", "b", "ab"); top(seq([lit("a"), opt(lit("b"))]), "ac", "abc", "a", "c"); top(seq([]), "", "a"); top(quiet(lit("a")), "", "a", "b", "ab"); top(seq([quiet(lit("a")), opt(quiet(lit("b")))]), "", "ac", "abc"); top(not_(lit("a")), "", "a", "b")
    top(seq([lit("a"), quiet(lit("b")), opt(lit("c"))]), "a", "ab", "abd", "abcd", "ac"); top(star(alt(lit("a"), fail("b"))), "", "aa", "ab"); top(seq([star(lit("a")), alt(fq(), fail("EOF"))]), "", "aa", "ab"); top(seq([star(lit("a")), opt(alt(fq(), fail("EOF")))]), "", "aa", "ab")
    # the same token at the furthest place in several ways, and one step earlier
    top(alt(seq([lit("a"), lit("b"), lit("c")]), seq([lit("a"), pat("b"), lit("c")]), seq([lit("ab"), lit("c")]), seq([lit("ab"), pat("c")]), seq([lit("a"), opt(lit("b")), alt(fq(), fail("c"))])), "", "a", "ab", "abd", "ac", "b", "abc", "abcd")
    out.append(Item(Grammar("tokens", rules, "str"), ents, ins))
    return out

def depth_items(ctx, long=False):
    """Silenced regions nested deeply, in the grammar and through recursion."""
    out = []
    def nest(f, n, e):
        for i in range(n): e = f[i % len(f)](e)
        return e
    ex = []
    for fs in ([quiet], [and_], [not_], [lambda e: and_(quiet(e))], [quiet, not_], [not_, and_, quiet]):
        for n in (1, 2, 3, 7, 8, 9, 16, 40):
            ex += [alt(seq([opt(nest(fs, n, lit("a"))), lit("b")]), lit("c")), seq([opt(nest(fs, n, seq([lit("a"), lit("b")]))), alt(lit("c"), nest(fs, n, lit("d")))])]
    g, ents = P.multi("nest", [(e, False) for e in ex], "str")
    if not long: out.append(Item(g, ents, [(e, s) for e in range(len(ents)) for s in ("", "a", "ab", "aab", "abc", "abx", "b", "c", "d", "x")]))
    # through recursion, one level per opening parenthesis
    for memo in ("no", "memo"):
        rules = [Rule("q", "V", alt(seq([el(quiet(seq([el(lit("(")), el(call("q"), "x"), el(lit(")"))], node("p", ["x"]))), "v")], node("q", ["v"])), seq([lit("x")], node("x", []))), cache=memo),
                 Rule("l", "V", alt(seq([el(and_(seq([el(lit("(")), el(call("l"), "x")], node("p", ["x"]))), "v")], node("l", ["v"])), seq([lit("x")], node("x", []))), cache=memo),
                 Rule("n", None, alt(not_(seq([lit("("), call("n")])), lit("x")), cache=memo),
                 Rule("m", None, alt(quiet(and_(not_(seq([lit("("), not_(call("m"))])))), and_(lit("x"))), cache=memo),
                 Rule("w", "V", call("wrap", [A_(alt(call("w"), seq([lit("x")], node("x", []))))])),
                 Rule("wrap", "V", seq([el(quiet(lit("("))), el(par("r"), "v"), el(alt(lit(")"), fail("close")))], node("w", ["v"])), [("r", "rule:V")])]
        tops = [alt(seq([opt(call(r)), opt(lit("(")), alt(lit("b"), lit("c"))]), fail("top")) for r in "qlnmw"] + [alt(seq([and_(call(r)), lit("z")]), seq([opt(call(r)), lit("b")])) for r in "qlnmw"]
        g, ents = P.multi("deep" + memo, [(e, False) for e in tops], "str", extra=rules)
        ws = [("(" * n + a + ")" * k + t) for n in (0, 1, 2, 7, 8, 9, 20) for a in ("", "x") for k in sorted({0, max(0, n - 1), n}) for t in ("", "b", "d")]
        out.append(Item(g, ents, [(e, s) for e in range(len(ents)) for s in dict.fromkeys(ws)]))
        if long:
            lw = [("(" * n + a + ")" * k + t) for n in (130, 257) for a, k, t in (("x", n, "b"), ("x", n, "d"), ("", 0, "d"))]
            out[-1].inputs = [(e, s) for e in range(5) for s in lw]
    return out

def memo_items(ctx):
    """A memoised rule swept over many positions, several times."""
    out = []
    for it in ("rec",):
        k = Rule("k", "V", alt(seq([el(pat("a"), "c"), el(not_(lit("b")))], node("k", ["c"])), seq([lit("b")], node("b", []))), cache="memo")
        end = ["!", "?", ",", ";", ".", "-"]
        rules = [k, Rule("s", "V", alt(*[seq([el(star(call("k")), "xs"), el(lit(c))], node("s%d" % i, ["xs"])) for i, c in enumerate(end)])),
                 Rule("u", "V", seq([el(not_(seq([star(call("k")), lit(c)]))) for c in end[:-1]] + [el(quiet(seq([star(call("k")), opt(lit("-"))]))), el(pos(), "p")], node("u", ["p"]))),
                 Rule("w", "V", alt(*[seq([el(quiet(seq([star(call("k")), lit(c)]))), el(pos(), "p")], node("w%d" % i, ["p"])) for i, c in enumerate(end)])),
                 Rule("v", "V", alt(*[seq([el(star(seq([not_(seq([call("k"), lit(c)])), call("k")])), "xs"), el(call("k")), el(lit(c))], node("v%d" % i, ["xs"])) for i, c in enumerate(end)]))]
        g = Grammar("sweep_" + it, rules, it)
        P.ticking(g)
        ents = []
        for r in "svuw":
            g.rules.append(Rule("m" + r, "V", call(r), pub=True)); ents.append(("m" + r, 0))
        # bodies of every kind - many that match nothing - attempted over and over at one position
        kinds = [opt(lit("x")), and_(lit("a")), not_(lit("b")), pos(), star(lit("x")), sl(star(pat("xy"))), quiet(lit("a")), rep(pat("ab"), bi(0), bi(2)), seq([]), seq([el(opt(lit("a")), "o"), el(pos(), "p")], node("q", ["o", "p"])), alt(lit("ab"), lit("a"), opt(lit("b"))),
                 plus(pat("a"), lit("b")), seq([el(pat("ab"), "c"), el(pat("ab"), "d")], cond("c", ["c", "d"], "same", x="c", y="d", msg="twins")), alt(fail("none"), lit("b")), cus("take", 1), cus("here"), cus("end"), met("a"), prec([[dict(ki="infix", es=[el(lit("+"))], t="p", args=["l", "r"], la="l", ra="r", assoc="l")], [dict(ki="atom", es=[el(opt(lit("a")), "z")], t="z", args=["z"], la="", ra="", assoc="l")]])]
        rules, ents2 = [], []
        for i, body in enumerate(kinds):
            rules.append(Rule("k%d" % i, "V", seq([el(body, "x")], node("k", ["x"])) if body["k"] in ("opt", "pos", "rep", "sl", "prec") or body.get("a", {}).get("k") == "node" else seq([el(body)], node("k", [])), cache="memo"))
            k_ = lambda: call("k%d" % i)
            rules.append(Rule("s%d" % i, "V", alt(*[seq([k_(), lit(c)], node("s", [])) for c in ";,.-"], seq([star(seq([not_(seq([k_(), lit("?")])), and_(opt(k_())), pat("", any_=1), quiet(opt(k_()))])), k_(), k_()], node("t", [])), seq([not_(k_()), opt(quiet(k_())), opt(k_()), pat("ab")], node("u", [])))))
        g2 = Grammar("kinds_" + it, rules, it)
        P.ticking(g2)
        for i in range(len(kinds)): g2.rules.append(Rule("m%d" % i, "V", call("s%d" % i), pub=True)); ents2.append(("m%d" % i, 0))
        out.append(Item(g2, ents2, [(e, w) for e in range(len(ents2)) for w in ("", "a", "a-", "x-", "ab", "abab", "aa?", "b+a", "xx", "a+-", "-")]))
        out.append(Item(g, ents, [(e, "a" * n + "b" * m + t) for e in (0, 1, 2, 3) for n, m in ((1, 0), (5, 2), (63, 0), (64, 1), (65, 0), (70, 70), (260, 0)) for t in ("-", "", "x")] + [(0, "a" * 700 + t) for t in "-x"]))
    return out

def chain_items(ctx, itype="str"):
    """Left-recursive chains of thousands of operands."""
    g = Grammar("chain", [Rule("e", "V", alt(seq([el(call("e")), el(lit("+")), el(call("t"), "r"), el(pos(), "p")], node("a", ["r", "p"])), call("t")), cache="lr"), Rule("t", "V", seq([el(pat("12"), "c")], node("t", ["c"])))], itype)
    add_entries(g.rules, "e")
    return [Item(g, ENTRIES, [(e, "1" + "+2" * n + t) for n in (1000, 1025) for e, t in ((0, ""), (1, "+"))] + [(1, "1" + "+2" * 5001 + "+")])]

def level_items(ctx):
    """Many levels, many operators, long chains."""
    out = []
    ops = "+-*/%^&|<>=!?:;,.~@#$"
    bin_ = lambda c, t, assoc: dict(ki="infix", es=[el(lit(c))], t=t, args=["x", "y"], la="x", ra="y", assoc=assoc)
    for name, order in (("up", lambda i: "l"), ("dn", lambda i: "r"), ("mx", lambda i: "lr"[i % 2])):
        levels = [[bin_(c, "o%d" % i, order(i))] for i, c in enumerate(ops)]
        levels.append([dict(ki="atom", es=[el(pat("ab"), "c")], t="c", args=["c"], la="", ra="", assoc="l"), dict(ki="atom", es=[el(lit("(")), el(call("r0"), "e"), el(lit(")"))], t="p", args=["e"], la="", ra="", assoc="l")])
        g = Grammar("lev" + name, [Rule("r0", "V", prec(levels))], "str")
        add_entries(g.rules)
        rng = ctx.rng("lev" + name)
        ws = ["a" + ops[i] + "b" + ops[j] + "a" for i in range(0, len(ops), 4) for j in range(0, len(ops), 2)] + ["a" + "".join(c + "b" for c in ops), "a" + "".join(c + "b" for c in ops[::-1])]
        ws += ["a" + "".join(rng.choice(ops) + rng.choice(["a", "b", "(a%sb)" % rng.choice(ops)]) for _ in range(n)) + t for n in (5, 9, 20) for _ in range(3) for t in ("", rng.choice(ops))]
        ws += ["a" + (c + "b") * n for c in "+$*" for n in ((60, 300) if name == "up" else (30,))]
        out.append(Item(g, ENTRIES, [(i % 2, w) for i, w in enumerate(ws)]))
    # more levels than fit in a byte: the same few operators, again and again
    for n in (131, 300):
        levels = [[dict(bin_(ops[i % 7] * (2 if i % 3 == 0 else 1), "o%d" % i, "lr"[i % 2]), ) if i % 10 else dict(ki="prefix", es=[el(lit("np"[i % 20 > 9]))], t="n%d" % i, args=["y"], la="", ra="y", assoc="lr"[i % 2])] for i in range(n)]
        for i in (3, n // 2, n - 2): levels[i] = [dict(bin_(ops[8 + j], "u%d_%d" % (i, j), "lr"[j % 2])) for j in ([i % 3] if i == 3 else [i % 3 + 3] if i < n - 2 else [7])]
        levels.append([dict(ki="atom", es=[el(pat("ab"), "c")], t="c", args=["c"], la="", ra="", assoc="l")])
        g = Grammar("levmany%d" % n, [Rule("r0", "V", prec(levels))], "str")
        add_entries(g.rules)
        rng = ctx.rng("levmany%d" % n)
        os_ = list(ops[:7]) + [c * 2 for c in ops[:7]] + list(ops[8:16])
        ws = ["a%sb%sa" % (x, y) for x in os_[14:] for y in os_[14:]] + ["a" + "".join(rng.choice(os_[14:] if rng.random() < 0.6 else os_) + rng.choice(["", "", "n", "p"]) + "b" for _ in range(rng.randint(2, 5))) for _ in range(40)]
        out.append(Item(g, ENTRIES, [(i % 2, w) for i, w in enumerate(rng.sample(ws[:40], ctx.n(14, 40)) + ws[-ctx.n(14, 40):] if n < 200 else rng.sample(ws[:40], ctx.n(10, 40)) + [w for w in ws[-40:] if len(w) < 9][:ctx.n(4, 40)])]))
    # operators that begin alike, in both orders, on one level
    for k, order in enumerate((1, -1)):
        alike = ["+", "+-", "+-+", "+*", "++", "-", "--"][::order]
        lv = [[bin_(c, "i%d" % i, "lr"[i % 2]) for i, c in enumerate(alike)], [dict(ki="postfix", es=[el(lit(c))], t="f%d" % i, args=["x"], la="x", ra="", assoc="l") for i, c in enumerate(["!", "!!", "!?", "!!!", "?", "?!"][::order])],
              [dict(ki="prefix", es=[el(lit(c))], t="q%d" % i, args=["y"], la="", ra="y", assoc="r") for i, c in enumerate(["~", "~~", "~n", "n", "n~"][::order])],
              [dict(ki="atom", es=[el(lit(c))], t="z%d" % i, args=[], la="", ra="", assoc="l") for i, c in enumerate(["a", "ab", "abc", "b", "na"][::order])]]
        g = Grammar("alike%d" % k, [Rule("r0", "V", prec(lv))], "str")
        add_entries(g.rules)
        rng = ctx.rng("alike%d" % k)
        ws = ["a" + x + y for x in ["+", "+-", "+-+", "+*", "++", "-", "--", "!", "!!", "!?", "!!!", "?", "?!"] for y in ("b", "na", "", "!a")]
        ws += ["".join(rng.choice(["~", "~~", "n", ""]) + rng.choice(["a", "ab", "abc", "b", "na"]) + rng.choice(["", "!", "!!", "?!", "!?", "!!!"]) + rng.choice(["+", "+-", "+-+", "+*", "++", "-", "--", ""]) for _ in range(rng.randint(1, 4))) for _ in range(60)]
        out.append(Item(g, ENTRIES, [(i % 2, w) for i, w in enumerate(ws)]))
    # operators of many parts
    P = lambda s, l: el(pat(s), l)
    lv = [[dict(ki="infix", es=[el(lit("?")), el(pat("12"), "m"), el(lit(":"))], t="t", args=["x", "m", "y"], la="x", ra="y", assoc="r"), dict(ki="infix", es=[el(lit("!")), el(pat("12"), "m"), el(pat("12"), "o"), el(lit(":"))], t="u", args=["x", "m", "o", "y"], la="x", ra="y", assoc="l")],
          [dict(ki="infix", es=[el(lit("[")), el(star(call("r0"), lit(","))), el(lit("]"))], t="v", args=["x", "y"], la="x", ra="y", assoc="r"), dict(ki="postfix", es=[el(lit("(")), el(star(call("r0"), lit(",")), "ar"), el(lit(")")), el(opt(lit(";")), "s")], t="call", args=["x", "ar", "s"], la="x", ra="", assoc="l"),
           dict(ki="prefix", es=[el(lit("if")), el(call("r0"), "c"), el(lit("then")), el(opt(call("r0")), "d"), el(lit("."))], t="if", args=["c", "d", "y"], la="", ra="y", assoc="l")],
          [dict(ki="infix", es=[el(lit("^"))] + [el(opt(lit(c)), "k" + c) for c in "xyzw"], t="w", args=["x", "kx", "ky", "kz", "kw", "y"], la="x", ra="y", assoc="r")],
          [dict(ki="atom", es=[el(pat("ab"), "c")], t="c", args=["c"], la="", ra="", assoc="l")]]
    g = Grammar("parts", [Rule("r0", "V", prec(lv))], "str")
    add_entries(g.rules)
    rng = ctx.rng("parts")
    bits = ["?1:", "!12:", "[]", "[a]", "[a,b]", "()", "(a)", "(a,b);", "^", "^xz", "^w", "^xyzw", "?", "!1:", "[a", "(a"]
    ws = ["a?1:b?2:a", "a!11:b!22:a", "a[]b[a]a", "a^xb^a", "a(b)(a)[b]a", "ifathenb.a", "ifathen.b^a?1:b", "ifa?1:bthena[]b.ifathen.b", "a^xyb(a,b);^zwa"]
    ws += ["".join(rng.choice(["", "", "ifathen.", "ifbthena."]) + rng.choice("ab") + rng.choice(bits) for _ in range(rng.randint(1, 4))) + rng.choice(["a", "b", ""]) for _ in range(70)]
    out.append(Item(g, ENTRIES, [(i % 2, w) for i, w in enumerate(ws)]))
    # many operators on one level, prefixes and postfixes stacked high
    lv = [[bin_(c, "o%d" % i, "l") for i, c in enumerate(ops)], [dict(ki="prefix", es=[el(lit("n"))], t="n", args=["y"], la="", ra="y", assoc="r"), dict(ki="prefix", es=[el(lit("m"))], t="m", args=["y"], la="", ra="y", assoc="l")],
          [dict(ki="postfix", es=[el(lit("f"))], t="f", args=["x"], la="x", ra="", assoc="l")], [dict(ki="atom", es=[el(pat("ab"), "c")], t="c", args=["c"], la="", ra="", assoc="l")]]
    g = Grammar("levflat", [Rule("r0", "V", prec(lv))], "str")
    add_entries(g.rules)
    ws = ["a" + "".join(c + "b" for c in ops), "n" * 40 + "a", "n" * 40 + "a" + "f" * 40, "a" + "f" * 130, "nm" + "a", "mna", "mnaf+nbf", "n" * 130 + "a+b", "a+" + "n" * 30 + "bf", "mma", "a+ma", "a+na+b", "n", "a+n", "a+f", "naf-nnbff*a"]
    out.append(Item(g, ENTRIES, [(e, w) for w in ws for e in (0, 1)]))
    return out

def param_items(ctx):
    """Many parameters, deep forwarding, arguments inside arguments."""
    out = []
    n = 9
    ps = ["p%d" % i for i in range(n)]
    c = lambda s: seq([el(pat(s), "c")], node("c", ["c"]))
    rules = [Rule("all", "V", seq([el(par(p), "v" + p) for p in ps], node("all", ["v" + p for p in ps])), [(p, "rule:V") for p in ps]),
             Rule("mix", "V", seq([el(par("x"), "a"), el(rep(par("y"), bv("k", "num"), bv("m", "num")), "b"), el(metx("w")), el(opt(par("z")), "d")], node("mix", ["a", "b", "d", "k", "m"])), [("x", "rule:V"), ("k", "num"), ("y", "rule:V"), ("w", "str"), ("m", "num"), ("z", "rule:V")])]
    d = 6
    for i in range(d):
        rules.append(Rule("f%d" % i, "V", call("f%d" % (i + 1), [A_(seq([el(par("x"), "v")], node("f%d" % i, ["v", "k"]))), {"k": "x", "x": "k"}]) if i < d - 1 else seq([el(par("x"), "v"), el(rep(pat("9"), bv("k", "num"), bv("k", "num"), None, "exact"), "r")], node("end", ["v", "r"])), [("x", "rule:V"), ("k", "num")]))
    tops = [call("all", [A_(c("12345"[i % 5])) for i in range(n)]), call("all", [A_(c("12345"[(n - i) % 5])) for i in range(n)]), call("all", [A_(opt_node("12345"[i % 5])) for i in range(n)]),
            call("mix", [A_(c("1")), N_(1), A_(c("2")), S_("3"), N_(3), A_(c("4"))]), call("mix", [A_(c("12")), N_(0), A_(c("2")), S_("2"), N_(1), A_(c("1"))]), call("mix", [A_(call("mix", [A_(c("1")), N_(2), A_(c("1")), S_("2"), N_(2), A_(c("3"))])), N_(1), A_(c("3")), S_("3"), N_(2), A_(c("3"))]),
            call("f0", [A_(c("12")), N_(0)]), call("f0", [A_(c("12")), N_(2)]), call("f0", [A_(call("f3", [A_(c("34")), N_(1)])), N_(1)])]
    g, ents = P.multi("params", [(t, True) for t in tops], "str", extra=rules)
    rng = ctx.rng("params")
    ws = ["".join("12345"[i % 5] for i in range(n)), "".join("12345"[(n - i) % 5] for i in range(n)), "123451235", "4321", "12345", "1223", "12234", "1234", "123", "13", "122", "1221", "21", "22", "1", "199", "2", "3991", "39", "399", "112333", "1123", "112", "11233", "", "9"]
    ws += ["".join(rng.choice("123459") for _ in range(rng.randint(2, 9))) for _ in range(20)]
    out.append(Item(g, ents, [(e, s) for e in range(len(ents)) for s in dict.fromkeys(ws)]))
    return out

def argument_items(ctx):
    """Arguments with values of every type, used and not, passed on, repeated, quieted, in closures of closures."""
    ks = [lambda: opt(pat("ab")), lambda: opt(lit("a")), lambda: star(pat("ab")), lambda: star(lit("a"), lit("b")), lambda: plus(opt_node("a"), lit("b")), lambda: rep(lit("a"), bi(1), bi(2)), lambda: sl(plus(pat("ab"))), lambda: sl(opt(lit("a"))), pos, lambda: lit("a"),
          lambda: pat("ab"), lambda: pat("a", inv=1), lambda: pat("", any_=1), lambda: and_(pat("ab")), lambda: not_(lit("a")), lambda: quiet(opt(pat("ab"))), lambda: quiet(pat("a")), lambda: alt(opt(pat("a")), opt(pat("b"))), lambda: opt(opt(pat("a"))), lambda: opt(star(pat("b"))),
          lambda: and_(opt(pat("a"))), lambda: seq([lit("a"), opt(lit("b"))]), lambda: seq([el(pat("ab"), "c"), el(opt(pat("b")), "d")], node("n", ["c", "d"])), lambda: cus("take", 1), lambda: call("v"), lambda: opt(call("v")), lambda: alt(sl(lit("ab")), sl(lit("a")))]
    G_ = "<T: Val>"
    rules = lambda: [Rule("v", "V", seq([el(pat("ab"), "c"), el(pos(), "p")], node("v", ["c", "p"])), cache="memo"),
        Rule("g1", "V", seq([el(par("x"), "v"), el(pos(), "p")], node("g1", ["v", "p"])), [("x", "rule:T")], generics=G_),
        Rule("g2", "V", seq([el(lit("a")), el(opt(par("x")), "v"), el(pos(), "p")], node("g2", ["v", "p"])), [("x", "rule:T")], generics=G_),
        Rule("g3", "V", seq([el(rep(seq([el(par("x"), "v"), el(lit("b"))], node("i", ["v"])), NB, bi(2)), "v"), el(quiet(par("x")), "w"), el(pos(), "p")], node("g3", ["v", "w", "p"])), [("x", "rule:T")], generics=G_),
        Rule("g4", "V", seq([el(par("x")), el(par("y"), "w"), el(opt(par("x")), "z"), el(pos(), "p")], node("g4", ["w", "z", "p"])), [("x", "rule:T"), ("y", "rule:U2")], generics="<T: Val, U2: Val>"),
        Rule("g5", "V", seq([el(call("g1", [A_(par("x"))]), "v"), el(call("g2", [A_(quiet(par("x")))]), "w")], node("g5", ["v", "w"])), [("x", "rule:T")], generics=G_),
        Rule("g6", "V", alt(seq([el(not_(seq([par("x"), lit("b")]))), el(and_(par("x")), "v"), el(sl(par("x")), "s"), el(pos(), "p")], node("g6", ["v", "s", "p"])), seq([el(sl(seq([par("x"), lit("b")])), "s")], node("h6", ["s"]))), [("x", "rule:T")], generics=G_)]
    out = []
    ws = [""] + ["".join(w_) for k in range(1, 5) for w_ in P.words_of("ab", k)] + ["z", "az", "aaz", "abab!", "aabab"]
    rng = ctx.rng("argk")
    for it in ("str", "u8", "rec"):
        es = []
        for k in ks:
            for n in (1, 2, 3, 5, 6): es.append(call("g%d" % n, [A_(k())]))
            es += [call("g4", [A_(k()), A_(rng.choice(ks)())]), call("g4", [A_(rng.choice(ks)()), A_(k())])]
        for i in range(0, len(es), 32):
            g, ents = P.multi("argk_%s_%d" % (it, i), [(e, True) for e in es[i:i + 32]], it, extra=rules())
            out.append(Item(g, ents, [(e, s) for e in range(len(ents)) for s in rng.sample(ws, ctx.n(8, 30))]))
    return out

def opt_node(s): return seq([el(opt(pat(s)), "o")], node("o", ["o"]))

def recode(e, table):
    """The same expression over other characters."""
    e = dict(e)
    tr = lambda s: "".join(table.get(c, c) for c in s)
    k = e["k"]
    if k in ("lit", "met"): e["s"] = tr(e["s"])
    elif k == "pat": e["set"] = tr(e["set"]); e["style"] = 0 if e["style"] == 1 else e["style"]
    elif k in ("opt", "and", "not", "sl", "quiet"): e["n"] = recode(e["n"], table)
    elif k == "rep":
        e["n"] = recode(e["n"], table)
        if e["sep"]: e["sep"] = recode(e["sep"], table)
    elif k == "seq": e["es"] = [dict(x, e=recode(x["e"], table)) for x in e["es"]]
    elif k == "alt": e["ns"] = [recode(x, table) for x in e["ns"]]
    return e

ODD = ["a\0", "\0a", " a", "a ", "\n\r", "\ufeffa", "e\u0301", "\u2028\t", "\U0010ffffa", "a\uffff", "\x7f\x80", "aA", "\"'", "\\/"]

def odd_items(ctx, tag, exprs, n, itypes=("str", "rec"), maxlen=3, used=None):
    """Members of a family over unusual pairs of characters."""
    out = []
    rng = ctx.rng("odd" + tag)
    for i, it in enumerate(itypes):
        for k in range(2):
            x, y = rng.choice(ODD) if rng.random() < 0.8 else "ab"
            ex = [recode(e, {"a": x, "b": y}) for e in rng.sample(exprs, min(n, len(exprs)))]
            out += P.family_items(ctx, "odd%s%d%d" % (tag, i, k), ex, itype=it, alphabet=x + y, maxlen=maxlen, used=used)
    return out

def long_vector(ctx):
    """More than 65536 elements."""
    g, ents = P.multi("lv", [(star(lit("a")), True), (star(seq([el(lit("b")), el(pos(), "p")], node("b", ["p"]))), True)], "str")
    return [Item(g, ents, [(0, "a" * 65537), (1, "b" * 66000)])]

def silence_items(ctx, tag, n, itypes=("str", "u8", "rec"), trace=False):
    """Rules of every kind called in zero to four nested regions that collect no errors, and after them."""
    rng = ctx.rng("sil" + tag)
    op = lambda ki, x, t, **kw: dict(dict(ki=ki, es=[el(lit(x))], t=t, args=[], la="", ra="", assoc="l"), **kw)
    aux = lambda: [Rule("p", "V", seq([el(lit("a")), el(pat("ab"), "c")], node("p", ["c"]))),
        Rule("m", "V", seq([el(opt(lit("b"))), el(pat("a"), "c"), el(not_(call("p"))), el(pos(), "p")], node("m", ["c", "p"])), cache="memo"),
        Rule("lr", "V", alt(seq([el(call("lr"), "l"), el(lit("b")), el(call("m"), "r")], node("lr", ["l", "r"])), call("m")), cache="lr"),
        Rule("ops", "V", prec([[op("infix", "b", "bin", args=["l", "r"], la="l", ra="r")], [op("postfix", "!", "post", args=["l"], la="l"), op("prefix", "-", "pre", args=["r"], ra="r")], [dict(op("atom", "a", "at"))]])),
        Rule("t", "V", seq([el(par("x"), "v"), el(par("s")), el(opt(par("x")), "w"), el(not_(par("s")))], node("t", ["v", "w"])), [("x", "rule:V"), ("s", "rule:U")]),
        Rule("nt", "V", call("t", [A_(alt(par("x"), seq([el(lit("-")), el(par("x"), "v")], node("mi", ["v"])))), A_(not_(seq([par("x"), lit("!")])))]), [("x", "rule:V")]),
        Rule("q", "V", alt(quiet(seq([el(lit("a")), el(call("m"), "x"), el(lit("!"))], node("q", ["x"]))), fail("qq"))),
        Rule("n", "V", seq([el(not_(seq([lit("a"), not_(call("p"))]))), el(call("m"), "x")], node("n", ["x"]))),
        Rule("k", "V", seq([el(rep(alt(call("p"), call("q")), bv("k", "num"), NB, None), "x")], node("k", ["x"])), [("k", "num")])]
    arg = [lambda: call("p"), lambda: call("m"), lambda: seq([el(pat("ab"), "c"), el(not_(quiet(lit("!"))))], node("i", ["c"])), lambda: alt(call("p"), seq([el(call("m"), "y"), el(lit("-"))], node("j", ["y"])))]
    us = [lambda: lit("b"), lambda: alt(lit("bb"), lit("b")), lambda: not_(lit("-")), lambda: quiet(alt(lit("b"), lit("-"))), lambda: seq([opt(lit("b")), not_(lit("!"))])]
    X_ = [lambda: call("p"), lambda: call("m"), lambda: call("lr"), lambda: call("ops"), lambda: call("q"), lambda: call("n"), lambda: call("t", [A_(rng.choice(arg)()), A_(rng.choice(us)())]), lambda: call("nt", [A_(rng.choice(arg)())]), lambda: call("k", [N_(rng.randint(0, 2))])]
    W = [not_, quiet, lambda e: opt(quiet(e)), lambda e: not_(not_(e)), lambda e: and_(quiet(e)), lambda e: seq([lit("a"), not_(e)]), lambda e: quiet(seq([opt(lit("a")), e])), lambda e: rep(seq([lit("a"), quiet(e)]), NB, bi(2)), lambda e: alt(seq([quiet(e), opt(lit("b"))]), not_(lit("b")))]
    any1 = lambda: pat("", any_=1)
    out = []
    for i in range(n):
        it = itypes[i % len(itypes)]
        rules, ents = aux(), []
        for j in range(10):
            e = seq([el(rng.choice(X_)())])
            for _ in range(rng.choice([0, 1, 2, 2, 2, 3, 3, 4])): e = rng.choice(W)(e)
            e = seq([el(e), el(opt(rng.choice(X_)()), "o"), el(pos(), "p"), el(rng.choice([lit("!"), lit("-"), opt(lit("b")), star(any1())]))], node("s", ["o", "p"]))
            if not P.legal(e): e = seq([], node("z", []))
            for pre, no in (("f%d" % j, False), ("g%d" % j, True)):
                rules.append(Rule(pre, "V", seq([el(json.loads(json.dumps(e)), "v"), el(pos(), "e")], node("top", ["v", "e"])), pub=True, noeof=no)); ents.append((pre, 1 if no else 0))
        ws = [""] + ["".join(w_) for k in range(1, 4) for w_ in P.words_of("ab", k)] + ["".join(rng.choice("aaabb!-") for _ in range(rng.randint(3, 8))) for _ in range(12)]
        out.append(Item(Grammar("sil_%s_%d" % (tag, i), rules, it), ents, [(e, s) for e in range(len(ents)) for s in rng.sample(ws, ctx.n(10, 20))]))
    return out
