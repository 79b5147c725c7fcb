"""Untyped grammars for the static checks: generation, rendering, flattening for PegAnalysis.tla.
Expressions as in gram.py, plus
  mark v        an operand marker of a precedence block ('@' or '(@)')
  aprec ops     ops: list of levels, each a list of [elements]   (elements as in seq)
and calls with a 'gen' flag (generic arguments are written)."""
from gram import *

def mark(v="@"): return {"k": "mark", "v": v}
def aprec(levels): return {"k": "aprec", "levels": levels}
def rcall(r, args=(), gen=0): return {"k": "call", "r": r, "args": list(args), "gen": gen}
def earg(e): return {"k": "e", "e": e}
def varg(x="1"): return {"k": "x", "x": x}

def akids(e):
    if e["k"] == "aprec": return [x["e"] for lv in e["levels"] for op in lv for x in op]
    return children(e)
def awalk(e):
    yield e
    for c in akids(e): yield from awalk(c)

class ARender(Render):
    def raw(self, e):
        k = e["k"]
        if k == "mark": return e["v"], 4
        if k == "call": return e["r"] + ("::<u8>" if e.get("gen") else "") + "(" + self.args(e) + ")", 4
        if k == "rep" and e.get("bnd"):
            return self.at(e["n"], 3) + ("**" if e["sep"] else "*") + e["bnd"] + (" " + self.at(e["sep"], 4) if e["sep"] else ""), 2
        if k == "aprec":
            lv = ["\n".join(self.seq_src(op, "") + " { 0 }" for op in ops) for ops in e["levels"]]
            return "precedence!{\n" + "\n--\n".join(lv) + "\n}", 4
        return super().raw(e)
    def arule(self, r):
        attrs = {"no": "", "memo": "#[cache] ", "lr": "#[cache_left_rec] "}[r.cache] + ("#[no_eof] " if r.noeof else "")
        ps = ", ".join("%s: %s" % (x, "rule<()>" if t == "rule" else "u32") for x, t in r.params)
        return "%s%srule %s%s(%s)%s = %s" % (attrs, "pub " if r.pub else "", r.name, "<T>" if r.generics else "", ps, " -> u8" if r.ret else "", self.at(r.body, 0))
    def agrammar(self, rules, name="g"):
        return "pub grammar %s() for str {\n%s\n}\n" % (name, "\n".join("  " + self.arule(r) for r in rules))

def aflatten(rules):
    nodes = []
    def put(e, own):
        k = e["k"]
        n = {"k": k, "owner": own}
        if k == "call":
            n.update(r=e["r"], gen=e.get("gen", 0), args=[{"k": "e", "n": put(a["e"], own)} if a["k"] == "e" else {"k": "v"} for a in e["args"]])
        elif k == "seq": n.update(es=[{"l": x["l"], "n": put(x["e"], own)} for x in e["es"]])
        elif k == "alt": n.update(ns=[put(x, own) for x in e["ns"]])
        elif k in ("opt", "and", "not", "sl", "quiet"): n.update(n=put(e["n"], own))
        elif k == "rep":
            lo, hi = (e["lo"], e["hi"]) if e.get("bnd") else (0 if e["min"]["k"] == "none" else 1, 0 if e["max"]["k"] == "none" else 1)
            n.update(lo=lo, hi=hi, n=put(e["n"], own), sep=put(e["sep"], own) if e["sep"] else 0)
        elif k == "mark": n.update(v=e["v"])
        elif k == "aprec":
            n.update(k="prec", ops=[{"es": [{"l": x["l"], "n": put(x["e"], own)} for x in op]} for lv in e["levels"] for op in lv])
        nodes.append(n)
        return len(nodes)
    rs = []
    for i, r in enumerate(rules):
        rs.append(dict(name=r.name, body=put(r.body, i + 1), params=[x for x, _ in r.params], rps=[x for x, t in r.params if t == "rule"],
                       cache=r.cache, ret=1 if r.ret else 0, pub=1 if r.pub else 0, noeof=1 if r.noeof else 0, gen=1 if r.generics else 0))
    return dict(nodes=nodes, rules=rs)

BNDS = [("<2>", 1, 1), ("<1,>", 1, 0), ("<,3>", 0, 1), ("<1,3>", 1, 1), ("<{1+1}>", 1, 1), ("<{N}, >", 1, 0), ("<, {N}>", 0, 1)]
def brep(n, sep, b):
    e = rep(n, NB, NB, sep, "")
    e.update(bnd=b[0], lo=b[1], hi=b[2])
    return e

# ---------------------------------------------------------------- exhaustive two-rule family
def leaves(names): return [lit("a")] + [rcall(x) for x in names] + [pos()]
def unary(x):
    return [opt(x), star(x), plus(x), and_(x), not_(x), sl(x), quiet(x), brep(x, None, BNDS[1]), brep(x, None, BNDS[2])]
def level1(names):
    L = leaves(names)
    out = list(L)
    for x in L: out += unary(x)
    for x in L:
        for y in L: out += [seq([x, y]), alt(x, y), star(x, y), plus(x, y)]
    return out
def precs(names):
    """Small precedence blocks."""
    out = []
    A = [[el(lit("a"))], [el(pos())], [el(rcall("b"))], [el(opt(rcall("a")))]]
    for at_ in A:
        for o in ([el(mark("(@)")), el(lit("+")), el(mark("@"))], [el(mark("@")), el(rcall("a")), el(mark("(@)"))], [el(mark("(@)")), el(opt(lit("+"))), el(mark("@"))],
                  [el(opt(rcall("a"))), el(mark("@"))], [el(rcall("a")), el(mark("(@)"))], [el(mark("@")), el(rcall("a"))], [el(mark("(@)")), el(opt(lit("!")))],
                  [el(pos(), "l"), el(mark("@"), "n"), el(pos(), "r")], [el(pos()), el(mark("@"))], [el(mark("@")), el(opt(lit("b"))), el(rcall("b")), el(mark("(@)"))]):
            out.append(aprec([[o], [at_]]))
    return out

# ---------------------------------------------------------------- random grammars
class AGen:
    """names: rule names; sigs: name -> params; faults are injected afterwards."""
    def __init__(self, rng, depth=3, wrep=4, consume=0.5, value=0.5):
        self.r, self.depth, self.wrep, self.consume, self.value = rng, depth, wrep, consume, value
        self.lab = 0

    def grammar(self):
        r = self.r
        n = r.randint(2, 5)
        self.rules = []
        for i in range(n):
            params = []
            if r.random() < 0.25 and i > 0:
                for j in range(r.randint(1, 2)):
                    nm = r.choice(["p%d" % j, "p%d" % j, "r%d" % r.randrange(n)])   # a parameter may have the name of a rule
                    if nm not in [x for x, _ in params]: params.append((nm, r.choice(["rule", "rule", "num"])))
            ru = Rule("r%d" % i, "u8" if r.random() < self.value else None, None, params)
            if not params: ru.cache = r.choice(["no"] * 6 + ["memo", "lr", "lr"])
            if not any(t == "rule" for _, t in params) and r.random() < 0.3:
                ru.pub = True; ru.noeof = r.random() < 0.2
            if params and r.random() < 0.1 or not params and ru.cache == "no" and r.random() < 0.04: ru.generics = "T"
            self.rules.append(ru)
        for ru in self.rules:
            self.cur = ru
            ru.body = self.expr(self.depth, ru.ret is not None)
        r.shuffle(self.rules)
        return self.rules

    def leaf(self, used):
        r = self.r
        k = r.random()
        if k < self.consume: return r.choice([lit("a"), lit("b"), pat("ab"), pat("", any_=1), lit("ab")])
        if k < self.consume + 0.3: return self.call(used, 0)
        return r.choice([pos(), pos(), fail("x"), cus("take", 1), met("a"), seq([])])

    def call(self, used, d):
        r = self.r
        rp = [x for x, t in self.cur.params if t == "rule"]
        if rp and r.random() < 0.4: return rcall(r.choice(rp))
        shadow = [x for x, _ in self.cur.params]
        cs = [q for q in self.rules if q.name not in shadow and (q.ret or not used)]
        if not cs: return lit("a")
        q = r.choice(cs)
        # an argument starts with a literal, so that the repetitions and recursion it takes part in are those of the operators alone
        return rcall(q.name, [earg(seq([lit("a"), self.expr(max(0, d - 1), False)])) if t == "rule" else varg() for _, t in q.params], 1 if q.generics and r.random() < 0.6 else 0)

    def label(self, e, p=0.4):
        self.lab += 1
        return "l%d" % self.lab if self.r.random() < p else ""

    def elems(self, n, d, p=0.4):
        out = []
        for _ in range(n):
            l = self.label(None, p)
            out.append(el(self.expr(d - 1, bool(l)), l))
        return out

    def expr(self, d, used):
        r = self.r
        if d <= 0: return self.leaf(used)
        k = r.choices(["leaf", "call", "seq", "alt", "opt", "rep", "and", "not", "sl", "quiet", "prec"], [2, 4, 5, 3, 2, self.wrep, 1, 1, 1, 1, 0.7])[0]
        if k == "leaf": return self.leaf(used)
        if k == "call": return self.call(used, d)
        if k == "seq":
            es = self.elems(r.randint(1, 3), d)
            return seq(es, node("t", []) if r.random() < 0.6 or len(es) == 1 else None)
        if k == "alt": return alt(*[self.expr(d - 1, used) for _ in range(r.randint(2, 3))])
        if k == "opt": return opt(self.expr(d - 1, used))
        if k == "rep":
            sep = self.expr(d - 1, False) if r.random() < 0.4 else None
            body = self.expr(d - 1, used)
            q = r.random()
            if q < 0.3: return star(body, sep)
            if q < 0.6: return plus(body, sep)
            return brep(body, sep, r.choice(BNDS))
        if k == "prec": return self.prec(d)
        return {"and": and_, "not": not_, "sl": sl, "quiet": quiet}[k](self.expr(d - 1, used if k in ("and", "quiet") else False))

    def prec(self, d):
        r = self.r
        lv = []
        if r.random() < 0.3: lv.append([[el(pos(), "l"), el(mark(r.choice(["@", "(@)"])), "n"), el(pos(), "r")]])
        for _ in range(r.randint(1, 3)):
            ops = []
            for _ in range(r.randint(1, 2)):
                m = lambda v=None: el(mark(v or r.choice(["@", "(@)"])), r.choice(["", "x"]))
                k = r.random()
                body = self.elems(r.choice([1, 1, 2]), d)
                if k < 0.4:
                    v = r.choice([("@", "(@)"), ("(@)", "@")])
                    ops.append([m(v[0])] + body + [m(v[1])])
                elif k < 0.6: ops.append(body + [m()])
                elif k < 0.8: ops.append([m()] + body)
                else:
                    if len(body) == 3 and body[0]["e"]["k"] == "pos" == body[2]["e"]["k"]: body = body[:2]
                    ops.append(body)
            lv.append(ops)
        return aprec(lv)

# ---------------------------------------------------------------- big grammars
def step_of(r, nxt, names):
    """An expression that reaches nxt somewhere; mostly without consuming anything first."""
    c = rcall(nxt)
    L = lambda: r.choice([lit("q"), pat("ab"), lit("xy")])
    k = r.randrange(15)
    return [lambda: c, lambda: seq([opt(L()), c]), lambda: seq([not_(L()), c]), lambda: alt(L(), c), lambda: quiet(c), lambda: seq([and_(L()), c, L()]),
            lambda: alt(*[L() for _ in range(r.choice([3, 9, 20]))], seq([opt(L()), c]), L()), lambda: sl(c), lambda: opt(c), lambda: plus(seq([c, L()])), lambda: seq([pos(), opt(L()), star(L()), c]),
            lambda: seq([el(x) for x in [opt(L()) for _ in range(r.choice([5, 17, 40]))]] + [el(c)]), lambda: brep(seq([c, L()]), None, r.choice(BNDS)),
            lambda: aprec([[[el(mark("(@)")), el(L()), el(mark("@"))]], [[el(L())] for _ in range(r.choice([1, 9, 12]))] + [[el(c)]]]),
            lambda: brep(opt(L()), c, r.choice([b for b in BNDS if b[2]]))][k]()

def chain_grammar(r):
    """A long chain of rules, closed (perhaps far back) or not."""
    n = r.choice([3, 8, 15, 16, 17, 21, 33, 40, 64, 70])
    rules = []
    names = ["r%d" % i for i in range(n)]
    for i in range(n):
        if i + 1 < n: b = step_of(r, names[i + 1], names)
        else: b = r.choice([lit("z"), opt(lit("z")), pos(), step_of(r, names[r.choice([0, 0, r.randrange(n), n - 1])], names)])
        rules.append(Rule(names[i], None, b))
    for _ in range(r.choice([0, 0, 0, 1])): i = r.randrange(n); rules[i].body = seq([lit("w"), rules[i].body])
    for _ in range(r.choice([0, 0, 1, 2])): rules[r.randrange(n)].cache = r.choice(["memo", "lr", "lr"])
    if r.random() < 0.2:
        for x in rules: x.cache = "lr"
        if r.random() < 0.7: rules[r.randrange(n)].cache = "no"
    q = r.random()
    if q < 0.3: rules.reverse()
    elif q < 0.6: r.shuffle(rules)
    return rules

def nest_grammar(r):
    """One expression under many operators."""
    x = r.choice([rcall("a"), rcall("b"), pos(), lit("a"), opt(lit("a")), star(lit("x"), rcall("a")), star(opt(lit("x")))])
    for _ in range(r.choice([3, 8, 16, 20, 40])):
        k = r.random()
        if k < 0.45: x = r.choice([opt, and_, not_, sl, quiet])(x)
        elif k < 0.55: x = brep(x, None, r.choice([b for b in BNDS if b[2]]))
        elif k < 0.6: x = r.choice([star, plus])(seq([lit("s"), x]))
        elif k < 0.75: x = seq([opt(lit("o")), x])
        elif k < 0.8: x = seq([x, lit("o")])
        elif k < 0.9: x = alt(lit("o"), x)
        elif k < 0.95: x = alt(x, lit("p"))
        else: x = aprec([[[el(mark("(@)")), el(lit("+")), el(mark("@"))]], [[el(x)]]])
    rs = [Rule("a", None, x), Rule("b", None, r.choice([lit("b"), opt(lit("b")), rcall("a"), seq([opt(lit("b")), rcall("a")])]))]
    for q in rs: q.cache = r.choice(["no", "no", "lr", "memo"])
    r.shuffle(rs)
    return rs

def wide_grammar(r):
    """A point of interest late in something wide: a choice, a sequence, a table of operators, a list of rules."""
    n = r.choice([7, 9, 12, 20, 33, 70])
    L = lambda: r.choice([lit("q"), lit("xy"), pat("ab")])
    x = r.choice([lambda: rcall("a"), lambda: star(opt(L())), lambda: star(rcall("b")), lambda: star(not_(L()), L()), lambda: star(opt(L()), opt(L())), lambda: lit("a"), lambda: star(L(), rcall("a")), lambda: plus(rcall("a"))])()
    at_ = r.choice([n, n, r.randrange(n + 1)])
    k = r.randrange(6)
    if k == 0: b = alt(*[L() for _ in range(at_)], x, *[L() for _ in range(n - at_)])
    elif k == 1: b = seq([el(opt(L())) for _ in range(at_)] + [el(x)] + [el(L()) for _ in range(n - at_)])
    elif k == 2: b = seq([el(L()) for _ in range(at_)] + [el(x)] + [el(L()) for _ in range(n - at_)])
    elif k == 3:      # many operators at one level
        ops = lambda q: [[[el(mark("(@)")), el(L()), el(mark("@"))], [el(L()), el(mark("@"))], [el(mark("@")), el(L())], [el(L())]][r.randrange(4)] for _ in range(q)]
        op = r.choice([[el(x)], [el(x), el(mark("@"))], [el(mark("(@)")), el(x)], [el(mark("(@)")), el(x), el(mark("@"))], [el(opt(L())), el(mark("@"))], [el(mark("(@)")), el(opt(L())), el(mark("@"))]])
        b = aprec([ops(at_) + [op] + ops(n - at_), [[el(r.choice([L(), opt(L())]))]]])
    elif k == 4:      # many levels
        lv = lambda: [[el(mark("(@)")), el(L()), el(mark("@"))]]
        op = r.choice([[el(x)], [el(x), el(mark("@"))], [el(mark("(@)")), el(x), el(mark("@"))], [el(opt(L())), el(mark("@"))]])
        b = aprec([lv() for _ in range(at_)] + [[op]] + [lv() for _ in range(n - at_)] + [[[el(r.choice([L(), opt(L())]))]]])
    else:             # in the arguments of a call
        b = rcall("t", [earg(seq([L(), opt(L())])) for _ in range(at_)] + [earg(seq([lit("a"), x]))] + [earg(L()) for _ in range(n - at_)])
    rs = [Rule("a", None, b), Rule("b", None, r.choice([lit("b"), opt(lit("b")), pos(), seq([opt(lit("b")), rcall("a")])]))]
    if k == 5: rs.append(Rule("t", None, lit("t"), [("p%d" % i, "rule") for i in range(n + 1)]))
    for i in range(r.choice([0, 0, 30])): rs.insert(r.randrange(len(rs) + 1), Rule("f%d" % i, None, L()))
    for q in rs:
        if not q.params: q.cache = r.choice(["no", "no", "no", "lr", "memo"])
    return rs

def big_grammars(r, n): return [r.choice([chain_grammar, chain_grammar, nest_grammar, wide_grammar, wide_grammar])(r) for _ in range(n)]
