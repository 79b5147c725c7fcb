"""Random typed grammars and inputs (seeded)."""
import random
from gram import *

DEF = dict(lit=5, pat=5, seq=6, act=6, alt=5, opt=3, rep=4, and_=1.5, not_=2, sl=2, pos=1, quiet=1.2, fail=0.7,
           call=4, par=3, cond=1.5, cus=0.6, met=0.4, prec=0.5, bound=0.5, sepw=0.4, bind=0.25, dyn=0.3,
           tmpl=0.35, gargs=0.2, memo=0.15, lr=0.0, inv=0.15, any_=0.08, letters="ab", extra="12+,", nrules=(2, 4), depth=4, empty=0.06,
           maxalts=3, nullrule=0.3, shadow=0.05)

def profile(**kw):
    p = dict(DEF); p.update(kw); return p

ODD_NAMES = ["pos", "input", "res", "val", "loc", "eloc", "epos", "state", "err_state", "entry", "str_start", "lpos", "rpos", "min_prec", "infix_result", "repeat_pos", "initial", "level_code",
             "__pos", "__input", "__state", "__err_state", "__ch", "__next", "__newpos", "__value", "__val", "__v", "__res", "__seq_res", "__step_res", "__repeat_value", "__lpos", "__infix_result", "__min_prec",
             "__choice_res", "__assert_res", "__recurse", "__rule_result", "_x", "r#type", "r#match", "r#fn", "pub_", "cache", "position", "precedence", "quiet", "expected", "result", "X", "\u00e9t\u00e9"]

class Gen:
    def __init__(self, rng, prof, itype="str", name="g"):
        self.r, self.p, self.itype, self.name = rng, prof, itype, name
        self.tag = 0; self.lab = 0
        # names of variables and parameters: plain ones, or such as generated code has itself
        self.names, self.pnames = [], []
        if rng.random() < prof.get("odd_names", 0.25):
            pool = list(ODD_NAMES); rng.shuffle(pool)
            self.pnames, self.names = pool[:6], pool[6:]

    def w(self, options):
        tot = sum(x for x, _ in options if x > 0)
        v = self.r.random() * tot
        for x, f in options:
            if x <= 0: continue
            v -= x
            if v <= 0: return f
        return options[-1][1]

    # -- nullability over-approximation (can it possibly match without consuming?)
    def nul(self, e):
        k = e["k"]
        if k in ("lit", "met"): return len(e["s"]) == 0
        if k == "pat": return False
        if k == "seq": return all(self.nul(x["e"]) for x in e["es"])
        if k == "alt": return any(self.nul(x) for x in e["ns"])
        if k in ("opt", "and", "not", "pos"): return True
        if k in ("sl", "quiet"): return self.nul(e["n"])
        if k == "rep":
            if e["min"]["k"] != "int" or e["min"]["i"] == 0: return True
            return self.nul(e["n"])
        if k in ("fail", "failx"): return False
        if k == "call": return self.rnull.get(e["r"], True)
        if k == "par": return self.parnull.get(e["x"], True)
        if k == "cus": return not (e["c"] == "take" and e["i"] > 0) and e["c"] != "never"
        if k == "metx": return False
        if k == "prec": return False
        raise Exception(k)

    def newtag(self):
        self.tag += 1
        return "t%d" % self.tag

    def newlab(self):
        if self.r.random() < self.p["shadow"]:            # shadowing
            c = [x for x, t in self.scope if not str(t).startswith("rule") and not x.startswith("ga")]
            if c: return self.r.choice(c)
        self.lab += 1
        return self.names[self.lab - 1] if self.lab <= len(self.names) else "l%d" % self.lab

    def vars(self):
        """Variables in scope, the innermost of each name."""
        return list(dict(self.scope).items())

    def chars(self):
        return self.p["letters"] + (self.p["extra"] if self.r.random() < 0.2 else "")

    # -- atoms
    def g_lit(self):
        n = self.w([(6, 1), (3, 2), (1, 3)])
        return lit("".join(self.r.choice(self.chars()) for _ in range(n)))

    def g_pat(self, bindok=False):
        if self.r.random() < self.p["any_"]: e = pat("", any_=1)
        else:
            cs = sorted(set(self.r.choice(self.chars()) for _ in range(self.r.randint(1, 3))))
            e = pat("".join(cs), inv=1 if self.r.random() < self.p["inv"] else 0, style=self.r.randint(0, 2))
        if bindok and not e["inv"] and self.r.random() < self.p["bind"]:
            e["bind"] = self.newlab()
        return e

    def g_atom(self):
        return self.g_lit() if self.r.random() < 0.5 and self.itype != "tok" else self.g_pat()

    # -- calls
    def callables(self, ret, used, first):
        out = []
        for i, s in enumerate(self.sigs):
            if first and i <= self.cur: continue
            if not first and i <= self.cur:
                if self.recbudget <= 0 or s["params"]: continue   # recursion only through parameterless rules
            t = s["ret"]
            if used and t is None: continue
            if used and t != ret: continue
            out.append(i)
        return out

    def g_call(self, i, d, first):
        s = self.sigs[i]
        if i <= self.cur: self.recbudget -= 1
        args = []
        for (x, ty) in s["params"]:
            if ty == "num":
                nums = [y for y, t in self.vars() if t == "num"]
                if nums and self.r.random() < 0.5: args.append({"k": "x", "x": self.r.choice(nums)})
                else: args.append({"k": "v", "v": "#%d" % self.r.randint(0, 3)})
            elif ty == "str":
                args.append({"k": "s", "s": "".join(self.r.choice(self.p["letters"]) for _ in range(self.r.randint(1, 2)))})
            else:
                # rule-valued arguments never match empty, so that templates may repeat them
                for _ in range(20):
                    e = self.gen("V" if ty == "rule:V" else "U", True, min(d - 1, 2), first)
                    if not self.nul(e): break
                else:
                    e = seq([self.g_atom()], node(self.newtag(), [])) if ty == "rule:V" else self.g_lit_u()
                args.append({"k": "e", "e": e})
        return call(s["name"], args)

    def g_lit_u(self):
        return self.g_lit() if self.itype != "tok" else seq([self.g_pat(), self.g_pat()])

    # -- expressions of type t (under the 'used' flag of the code generator)
    def gen(self, t, used, d, first):
        p, r = self.p, self.r
        if d <= 0: return self.base(t, used, first)
        o = []
        sub = lambda tt, u, f=first: self.gen(tt, u, d - 1, f)
        if t == "U":
            o += [(p["lit"] if self.itype != "tok" else 0, self.g_lit), (p["seq"], lambda: self.g_seq(None, d, first)), (p["not_"], lambda: not_(self.any_(d - 1, first)))]
            if not used:
                o += [(p["pat"], self.g_pat), (p["opt"], lambda: opt(self.any_(d - 1, first))), (p["rep"], lambda: self.g_rep(None, False, d, first))]
                cs = self.callables(None, False, first)
                if cs: o.append((p["call"], lambda: self.g_call(r.choice(cs), d, first)))
            if p["met"] and self.itype in ("str", "u8", "rec"): o.append((p["met"], lambda: met(self.g_lit()["s"])))
            ps = [x for x, ty in self.vars() if ty == "rule:U"]
            if ps: o.append((p["par"], lambda: par(r.choice(ps))))
            ss = [x for x, ty in self.vars() if ty == "str"]
            if ss and self.itype != "tok": o.append((p["par"], lambda: metx(r.choice(ss))))
        elif t == "C": o.append((p["pat"], self.g_pat))
        elif t == "S": o.append((p["sl"] + 1, lambda: sl(self.any_(d - 1, first))))
        elif t == "P": o.append((1, pos))
        elif t == "V":
            o += [(p["act"], lambda: self.g_seq("node", d, first)), (p["cond"], lambda: self.g_seq("cond", d, first)), (p["cus"], self.g_cus)]
            if d >= 2: o.append((p["prec"], lambda: self.g_prec(d, first)))
            if used:
                cs = self.callables("V", True, first)
                if cs: o.append((p["call"], lambda: self.g_call(r.choice(cs), d, first)))
            ps = [x for x, ty in self.vars() if ty == "rule:V"]
            if ps: o.append((p["par"], lambda: par(r.choice(ps))))
        elif t[0] == "O": o.append((p["opt"], lambda: opt(sub(t[1], True))))
        elif t[0] == "L": o.append((p["rep"], lambda: self.g_rep(t[1], True, d, first)))
        o += [(p["alt"] * (0.15 if t in ("P", "C") else 1), lambda: self.g_alt(t, used, d, first)), (p["and_"], lambda: and_(sub(t, used))), (p["quiet"], lambda: quiet(sub(t, used)))]
        return self.w(o)()

    def base(self, t, used, first):
        if t == "U":
            if self.itype != "tok": return self.g_lit()
            return self.g_pat() if not used else seq([self.g_pat(), self.g_pat()])
        if t == "C": return self.g_pat()
        if t == "S": return sl(self.g_atom())
        if t == "P": return pos()
        if t == "V":
            ps = [x for x, ty in self.vars() if ty == "rule:V"]
            if ps and self.r.random() < 0.5: return par(self.r.choice(ps))
            l = self.newlab()
            return seq([el(self.g_pat(), l)], node(self.newtag(), [l]))
        if t[0] == "O": return opt(self.base(t[1], True, first))
        if t[0] == "L": return rep(self.base(t[1], True, first), bi(1), bi(2)) if t[1] == "P" else star(self.base(t[1], True, first))
        raise Exception(t)

    def any_(self, d, first):
        """An expression whose result is unused, of any type."""
        r = self.r.random()
        if r < 0.55: t = "U"
        elif r < 0.75: t = "V"
        else: t = self.r.choice(["S", "P", "U", "U"])
        return self.gen(t, False, d, first)

    def anylabeled(self, d, first):
        t = self.w([(3, "V"), (3, "C"), (2, "S"), (1, "P"), (1, "U"), (1.5, ("O", "V")), (0.7, ("O", "C")), (1.5, ("L", "V")), (1, ("L", "C")), (0.5, ("L", "U")), (0.4, ("L", ("O", "C")))])
        if t == ("L", ("O", "C")): t = ("O", "C")
        return t, self.gen(t, True, d, first)

    def g_seq(self, kind, d, first):
        p, r = self.p, self.r
        save = list(self.scope)
        if kind is None and r.random() < p["empty"]: return seq([])
        n = r.choice([2, 2, 3]) if kind is None else r.choice([1, 1, 2, 2, 3])
        es, labs = [], []
        f = first
        for i in range(n):
            if kind and (r.random() < 0.7):
                l = self.newlab()
                t, e = self.anylabeled(d - 1, f)
                es.append(el(e, l)); self.scope.append((l, t)); labs.append(l)
            elif r.random() < 0.3:
                e = self.g_pat(bindok=bool(kind)); es.append(el(e))
                if e["bind"]: self.scope.append((e["bind"], "C")); labs.append(e["bind"])
            else:
                e = self.any_(d - 1, f); es.append(el(e))
            if not self.nul(e): f = False
        vis = [x for x, t in self.vars() if not str(t).startswith("rule") and t not in ("str",)]
        a = None
        if kind:
            args = list(dict.fromkeys(labs))
            if vis and r.random() < 0.3: args.append(r.choice(vis))
            if kind == "node": a = node(self.newtag(), args)
            else:
                a = self.g_cond(args)
        self.scope = save
        return seq(es, a)

    def g_cond(self, args):
        r = self.r
        ty = dict(self.scope)
        cl = [x for x, t in self.vars() if t == "C"]
        op = r.random()
        msg = r.choice(["m1", "m2", "cond fail"])
        if cl and op < 0.6:
            x = r.choice(cl)
            return cond(self.newtag(), args, r.choice(["eq", "ne"]), x=x, v="'" + cname(r.choice(self.p["letters"])), msg=msg, form=r.randint(0, 2))
        if len(cl) >= 2 and op < 0.8:
            x, y = r.sample(cl, 2)
            return cond(self.newtag(), args, "same", x=x, y=y, msg=msg, form=r.randint(0, 2))
        sl_ = [x for x, t in self.vars() if t == "S"]
        if sl_ and op < 0.95:
            return cond(self.newtag(), args, r.choice(["eq", "ne"]), x=r.choice(sl_), v="{" + cname(r.choice(self.p["letters"])) + "}", msg=msg, form=r.randint(0, 2))
        return cond(self.newtag(), args, r.choice(["no", "yes", "no"]), msg=msg, form=r.randint(0, 2))

    def g_cus(self):
        if self.itype == "tok": return seq([self.g_pat()], node(self.newtag(), []))
        return cus(self.w([(4, "take"), (1, "never"), (0.6, "rest"), (1.5, "here"), (1.5, "end")]), self.r.choice([1, 1, 2]))

    def g_bounds(self):
        r = self.r
        def one(lo, hi):
            dyn = [(x, t) for x, t in self.vars() if t == "num"] + [(x, "chr") for x, t in self.vars() if t == "digit"]
            if dyn and r.random() < self.p["dyn"]:
                x, t = r.choice(dyn)
                return bv(x, t)
            return bi(r.randint(lo, hi))
        k = r.randint(0, 4)
        if k == 0: b = one(0, 3); return b, b, "exact"
        if k == 1: return one(0, 2), NB, ""
        if k == 2: return NB, one(0, 3), ""
        mn = one(0, 2)
        mx = bi(mn["i"] + r.randint(0, 2)) if mn["k"] == "int" and r.random() < 0.8 else one(0, 3)
        return mn, mx, ""

    def g_rep(self, t, used, d, first):
        p, r = self.p, self.r
        if r.random() < p["bound"]: mn, mx, form = self.g_bounds()
        elif r.random() < 0.5: mn, mx, form = bi(1), NB, "plus"
        else: mn, mx, form = NB, NB, "star"
        sep = None
        save = list(self.scope)
        for _ in range(30):
            body = self.gen(t, True, d - 1, first) if used else self.any_(d - 1, first)
            if mx["k"] != "none" or not self.nul(body): break
        else:
            body = self.base(t, True, first) if used else self.g_lit_u()
            if self.nul(body): mx = bi(2)
        if mx["k"] == "none" and self.nul(body):
            mx = bi(2)
            if form in ("star", "plus"): form = ""
        if r.random() < p["sepw"]:
            sep = self.any_(min(d - 1, 2), first and self.nul(body))
        self.scope = save
        return rep(body, mn, mx, sep, form)

    def g_alt(self, t, used, d, first):
        n = self.r.randint(2, self.p["maxalts"])
        ns = []
        for i in range(n):
            e = self.gen(t, used, d - 1, first)
            ns.append(e)
        if self.r.random() < self.p["fail"] * 0.3:
            ss = [x for x, ty in self.vars() if ty == "str"]
            ns.append(failx(self.r.choice(ss)) if ss and self.r.random() < 0.5 else fail(self.r.choice(["thing", "other thing"])))
        # (Rust's inference needs the type before a precedence block)
        if self.r.random() < 0.08 and not any(x["k"] == "prec" for n in ns for x in walk(n)): ns[0:0] = [fail("early")]
        # the first alternative fixes the Rust type; expected!() alone cannot
        return alt(*ns)

    def g_prec(self, d, first):
        r = self.r
        levels = []
        opsyms = list(self.p.get("ops", "+,12"))
        nl = r.randint(1, 3) if r.random() > self.p.get("manyops", 0.05) else r.randint(4, 8)
        mk = lambda ki, es, la="", ra="", assoc="l": dict(ki=ki, es=es, t=self.newtag(), args=[x for x in [la] + [q["l"] for q in es] + [ra] if x], la=la, ra=ra, assoc=assoc)
        for i in range(nl):
            ops = []
            for _ in range(r.randint(1, 2) if r.random() > self.p.get("manyops", 0.05) else r.randint(4, 10)):
                k = r.random()
                s = el(lit(r.choice(opsyms) * r.choice([1, 1, 1, 2])) if self.itype != "tok" else pat(r.choice(opsyms)))
                es = [s]
                if r.random() < 0.15: es = [s, el(self.g_pat(), self.newlab())]
                if r.random() < self.p.get("longops", 0.05):      # an operator of several parts, like a ternary
                    es = es + [el(opt(self.g_pat()), self.newlab()) if r.random() < 0.4 else el(self.g_pat(), self.newlab()) for _ in range(r.randint(1, 3))]
                    if r.random() < 0.5: es.append(el(pat(r.choice(opsyms))))
                if k < 0.6: ops.append(mk("infix", es, self.newlab(), self.newlab(), r.choice("lr")))
                elif k < 0.8: ops.append(mk("prefix", es, ra=self.newlab(), assoc=r.choice("lr")))
                else: ops.append(mk("postfix", es, la=self.newlab(), assoc=r.choice("lr")))
            levels.append(ops)
        atoms = []
        l = self.newlab()
        atoms.append(mk("atom", [el(pat(self.p["letters"]), l)]))
        if r.random() < 0.4:
            l = self.newlab()
            save = list(self.scope)
            e = self.gen("V", True, d - 2, False)
            self.scope = save
            atoms.append(mk("atom", [el(self.g_lit() if self.itype != "tok" else self.g_pat()), el(e, l)]))
        levels.append(atoms)
        return prec(levels, "w" if r.random() < 0.3 else "")

    def g_leftrec(self, i, base):
        """A directly left-recursive body over the given base expression."""
        r = self.r
        save = self.scope[:]
        alts = []
        for _ in range(self.w([(5, 1), (3, 2), (1, 3)])):
            self.scope = save[:]
            l = self.newlab()
            self.scope.append((l, "V"))
            es = [el(call("r%d" % i), l)]
            k = r.random()
            if k < 0.15: es.insert(0, el(opt(self.g_atom())))
            elif k < 0.3: es.insert(0, el(self.w([(1, not_), (1, and_)])(self.g_atom())))
            labs = [l]
            if r.random() < 0.85: es.append(el(self.g_atom()))
            k = r.random()
            if k < 0.45:
                t, e = self.anylabeled(2, not (len(es) > 1 and not self.nul(es[-1]["e"])))
                l2 = self.newlab(); es.append(el(e, l2)); labs.append(l2); self.scope.append((l2, t))
            elif k < 0.6 and not self.nul(es[-1]["e"]):
                l2 = self.newlab(); es.append(el(call("r%d" % i), l2)); labs.append(l2); self.scope.append((l2, "V"))
            labs = list(dict.fromkeys(labs))
            alts.append(seq(es, self.g_cond(labs) if r.random() < 0.2 else node(self.newtag(), labs)))
        self.scope = save
        out = alts + [base]
        if r.random() < 0.25: r.shuffle(out)
        return alt(*out)

    # -- whole grammar
    def grammar(self):
        p, r = self.p, self.r
        n = r.randint(*p["nrules"])
        self.sigs = []
        lr = [r.random() < p["lr"] for _ in range(n)]
        for i in range(n):
            params = []
            if not lr[i] and i > 0 and r.random() < p["tmpl"]:
                for j in range(r.randint(1, 2)):
                    params.append((self.pnames.pop() if self.pnames else "p%d_%d" % (i, j), self.w([(4, "rule:V"), (2, "rule:U"), (2, "num"), (1 if self.itype in ("str", "u8", "rec") else 0, "str")])))
            ret = "V" if i == 0 or lr[i] else self.w([(5, "V"), (2, None), (0.7, "C"), (0.7, "S"), (0.7, ("L", "V")), (0.5, ("O", "V"))])
            self.sigs.append(dict(name="r%d" % i, ret=ret, params=params))
        gargs = []
        if r.random() < p["gargs"]: gargs = [("ga%d" % k, r.randint(0, 4)) for k in range(r.randint(1, 2))]
        bodies = [None] * n
        self.rnull = {}
        # later rules first: calls at first position go only to later rules, so that their
        # nullability is known; recursive calls (after consumption) count as nullable
        for i in reversed(range(n)):
            self.cur = i; self.recbudget = 1
            s = self.sigs[i]
            self.scope = [(x, t) for x, t in s["params"]] + [(x, "num") for x, _ in gargs]
            self.parnull = {x: False for x, t in s["params"] if t.startswith("rule")}
            want_null = r.random() < p["nullrule"]
            for _ in range(10):
                sv = (self.scope[:], self.recbudget)
                if s["ret"] is None: b = self.gen("U", False, p["depth"], True)
                else: b = self.gen(s["ret"], True, p["depth"], True)
                self.scope, self.recbudget = sv[0], 1
                if want_null or not self.nul(b): break
            if lr[i] and r.random() < 0.9: b = self.g_leftrec(i, b)
            bodies[i] = b
            self.rnull[s["name"]] = self.nul(b)
        rules = []
        for i, s in enumerate(self.sigs):
            cache = "lr" if lr[i] else "memo" if not s["params"] and r.random() < p["memo"] else "no"
            rules.append(Rule(s["name"], s["ret"], bodies[i], s["params"], cache))
        add_entries(rules)
        return Grammar(self.name, rules, self.itype, gargs)

def add_entries(rules, top="r0"):
    rules.append(Rule("main", "V", call(top), pub=True))
    rules.append(Rule("pfx", "V", seq([el(call(top), "v"), el(pos(), "e")], node("top", ["v", "e"])), pub=True, noeof=True))

ENTRIES = [("main", 0), ("pfx", 1)]

# ---------------------------------------------------------------- inputs
def derive(g, rng, maxlen=10):
    """A random string following the productions (ignoring ordered choice)."""
    fuel = [60]
    alpha = "".join(g.alphabet()) or "a"
    def d(e, env):
        fuel[0] -= 1
        k = e["k"]
        low = fuel[0] <= 0
        if k in ("lit", "met"): return e["s"]
        if k == "pat":
            if e["any"]: return rng.choice(alpha)
            if e["inv"]:
                c = [x for x in alpha + "z" if x not in e["set"]]
                return rng.choice(c)
            return rng.choice(e["set"])
        if k == "seq": return "".join(d(x["e"], env) for x in e["es"])
        if k == "alt":
            ns = [x for x in e["ns"] if x["k"] not in ("fail", "failx")] or e["ns"]
            return d(ns[0] if low else rng.choice(ns), env)
        if k == "opt": return "" if low or rng.random() < 0.4 else d(e["n"], env)
        if k == "rep":
            lo = e["min"].get("i", 0) if e["min"]["k"] == "int" else rng.randint(0, 2)
            hi = e["max"].get("i", 2) if e["max"]["k"] == "int" else lo + rng.randint(0, 3)
            n = lo if low else rng.randint(min(lo, hi), max(lo, hi) + (1 if rng.random() < 0.2 else 0))
            out = []
            for i in range(n):
                if i and e["sep"]: out.append(d(e["sep"], env))
                out.append(d(e["n"], env))
            if e["sep"] and rng.random() < 0.15: out.append(d(e["sep"], env))
            return "".join(out)
        if k in ("and", "not"): return ""
        if k in ("sl", "quiet"): return d(e["n"], env)
        if k == "call":
            if low and fuel[0] < -40: return ""
            ru = g.rule(e["r"])
            env2 = {ru.params[i][0]: (a, env) for i, a in enumerate(e["args"])}
            return d(ru.body, env2)
        if k in ("par", "metx"):
            a, env2 = env.get(e["x"], (None, None))
            if a is None: return ""
            if a["k"] == "s": return a["s"]
            if a["k"] == "y": return d({"k": "par", "x": a["x"]}, env2)
            return d(a["e"], env2) if a["k"] == "e" else ""
        if k == "prec":
            atoms = [op for lv in e["levels"] for op in lv if op["ki"] == "atom"]
            ops = [op for lv in e["levels"] for op in lv if op["ki"] != "atom"]
            es = lambda op: "".join(d(x["e"], env) for x in op["es"])
            def operand(dep):
                pre = [o for o in ops if o["ki"] == "prefix"]
                s = es(rng.choice(pre)) if pre and rng.random() < 0.25 else ""
                return s + es(rng.choice(atoms))
            s = operand(0)
            for _ in range(rng.randint(0, 4)):
                if not ops: break
                o = rng.choice(ops)
                if o["ki"] == "infix": s += es(o) + operand(0)
                elif o["ki"] == "postfix": s += es(o)
            return s
        if k == "cus": return "".join(rng.choice(alpha) for _ in range(e["i"])) if e["c"] == "take" else ""
        return ""
    return d(g.rule("r0").body if g.rule("r0") else g.rules[0].body, {})[:40]

def mutate(s, alpha, rng):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randint(0, 3)
        i = rng.randint(0, len(s))
        if k == 0: s.insert(i, rng.choice(alpha))
        elif k == 1 and s: del s[min(i, len(s) - 1)]
        elif k == 2 and s: s[min(i, len(s) - 1)] = rng.choice(alpha)
        else: s = s[:i]
    return "".join(s)

def inputs(g, rng, n, exhaustive=40, maxlen=12, foreign="z"):
    alpha = g.alphabet()[:6] + list(foreign)
    out = {}
    L = 0
    words = [""]
    while words and len(out) + len(words) <= exhaustive:
        for x in words: out[x] = 1
        words = [x + c for x in words for c in alpha]
    tries = 0
    while len(out) < n and tries < 6 * n:
        tries += 1
        s = derive(g, rng)
        if rng.random() < 0.45: s = mutate(s, alpha, rng)
        if len(s) <= maxlen: out[s] = 1
    return list(out)
