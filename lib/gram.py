"""Grammar ASTs: construction, typing facts, flattening to the JSON node tables that
the TLA+ modules interpret, and rendering to rust-peg source text.

An expression is a dict with key 'k' (see spec/Peg.tla for the meaning of each kind):
  lit s | pat set inv any bind style | call r args | par x | seq es a | alt ns | opt n
  rep n min max sep | and n | not n | sl n | pos | quiet n | fail tok | failx x
  prec levels wrap | cus c i | met s | metx x
Types (of values): 'U' unit, 'C' element, 'S' slice, 'P' position, 'V' node,
  ('O', t) option, ('L', t) vector.
"""
import re, unicodedata

def cname(c):
    if c.isascii() and c.isprintable() and c not in '"\\ ':
        return c
    return "U+%X" % ord(c)

def names(s):
    return [cname(c) for c in s]

def elems(s, itype):
    """Names of the elements a literal consists of."""
    return names("".join(map(chr, s.encode()))) if itype == "u8" else names(s)

def norm_tok(s):
    """Same normalisation as the harness applies to expected tokens."""
    return re.sub(r"\s+", "", s).replace('"', "`").replace("\\", "/") or "<empty>"

# ---------------------------------------------------------------- constructors
def lit(s): return {"k": "lit", "s": s}
def pat(set_, inv=0, any_=0, bind="", style=0): return {"k": "pat", "set": set_, "inv": inv, "any": any_, "bind": bind, "style": style}
def call(r, args=()): return {"k": "call", "r": r, "args": list(args)}
def par(x): return {"k": "par", "x": x}
def el(e, l=""): return {"l": l, "e": e}
def seq(es, a=None): return {"k": "seq", "es": [x if "e" in x and "k" not in x else el(x) for x in es], "a": a or {"k": "none"}}
def node(t, args): return {"k": "node", "t": t, "args": list(args)}
def cond(t, args, op, x="", v="", y="", msg="cond", form=0): return {"k": "cond", "t": t, "args": list(args), "op": op, "x": x, "v": v, "y": y, "msg": msg, "form": form}
def alt(*ns): return {"k": "alt", "ns": list(ns)}
def opt(n): return {"k": "opt", "n": n}
NB = {"k": "none"}
def bi(i): return {"k": "int", "i": i}
def bv(x, ty): return {"k": "var", "x": x, "ty": ty}
def rep(n, mn=NB, mx=NB, sep=None, form=""): return {"k": "rep", "n": n, "min": mn, "max": mx, "sep": sep, "form": form}
def star(n, sep=None): return rep(n, NB, NB, sep, "star")
def plus(n, sep=None): return rep(n, bi(1), NB, sep, "plus")
def and_(n): return {"k": "and", "n": n}
def not_(n): return {"k": "not", "n": n}
def sl(n): return {"k": "sl", "n": n}
def pos(): return {"k": "pos"}
def quiet(n): return {"k": "quiet", "n": n}
def fail(tok): return {"k": "fail", "tok": tok}
def failx(x): return {"k": "failx", "x": x}
def cus(c, i=0): return {"k": "cus", "c": c, "i": i}
def cusm(c, i=0): return {"k": "cus", "c": c, "i": i, "m": 1}       # the same as a method of the input
def met(s): return {"k": "met", "s": s}
def metx(x): return {"k": "metx", "x": x}
def prec(levels, wrap=""):
    """levels: list of lists of ops; op: dict ki(atom|prefix|infix|postfix), es, t, args, la, ra, assoc('l'|'r')"""
    return {"k": "prec", "levels": levels, "wrap": wrap}

def children(e):
    k = e["k"]
    if k in ("opt", "and", "not", "sl", "quiet"): return [e["n"]]
    if k == "rep": return [e["n"]] + ([e["sep"]] if e["sep"] else [])
    if k == "seq": return [x["e"] for x in e["es"]]
    if k == "alt": return e["ns"]
    if k == "call": return [a["e"] for a in e["args"] if a["k"] == "e"]
    if k == "prec": return [x["e"] for lv in e["levels"] for op in lv for x in op["es"]]
    return []

def walk(e):
    yield e
    for c in children(e):
        yield from walk(c)

class Rule:
    def __init__(self, name, ret, body, params=(), cache="no", pub=False, noeof=False, generics=""):
        # params: list of (name, ty) with ty in rule:V rule:U num str
        self.name, self.ret, self.body, self.params = name, ret, body, list(params)
        self.cache, self.pub, self.noeof, self.generics = cache, pub, noeof, generics

class Grammar:
    def __init__(self, name, rules, itype="str", gargs=(), note=""):
        self.name, self.rules, self.itype, self.gargs, self.note = name, rules, itype, list(gargs), note
        # gargs: list of (name, int value)

    def rule(self, n):
        for r in self.rules:
            if r.name == n: return r

    def alphabet(self):
        out = []
        for r in self.rules:
            for e in walk(r.body):
                src = e.get("s") if e["k"] in ("lit", "met") else e.get("set") if e["k"] == "pat" else None
                for c in src or "":
                    if c not in out: out.append(c)
                if e["k"] == "call":
                    for a in e["args"]:
                        if a["k"] == "s":
                            for c in a["s"]:
                                if c not in out: out.append(c)
        return out

# ---------------------------------------------------------------- prec compilation (spec side)
def prec_ops(e):
    """Operators of a precedence block in specification form."""
    pre, lev = [], []
    wrap = e["wrap"]
    # a span wrapper is written at a level of its own, before the others
    for lv, ops in enumerate(([[]] if wrap else []) + e["levels"]):
        post = []
        for op in ops:
            o = dict(ki=op["ki"], es=op["es"], t=op["t"], args=op["args"], la=op.get("la", ""), ra=op.get("ra", ""), w=wrap, lv=lv)
            if op["ki"] == "infix": o["np"] = lv + 1 if op["assoc"] == "l" else lv
            elif op["ki"] == "prefix": o["np"] = lv if op["assoc"] == "r" else lv + 1
            else: o["np"] = 0
            (pre if op["ki"] in ("atom", "prefix") else post).append(o)
        lev.append(post)
    return pre, lev

# ---------------------------------------------------------------- flatten to JSON
def flatten(g, entries):
    """entries: list of (rule name, noeof). Returns the JSON grammar and entry list."""
    nodes = []
    itype = g.itype
    def put(e):
        k = e["k"]
        n = {"k": k}
        if k == "lit": n.update(s=elems(e["s"], itype), tok=norm_tok(lit_src(e["s"])))
        elif k == "pat": n.update(set=names(e["set"]), inv=e["inv"], any=e["any"], bind=e["bind"], tok=norm_tok(pat_src(e, itype)))
        elif k == "call":
            args = []
            for a in e["args"]:
                if a["k"] == "e": args.append({"k": "e", "n": put(a["e"])})
                elif a["k"] == "s": args.append({"k": "s", "s": elems(a["s"], itype), "tok": norm_tok(a["s"])})
                else: args.append({kk: a[kk] for kk in a if kk in ("k", "v", "x")})
            n.update(r=e["r"], args=args)
        elif k == "par": n.update(x=e["x"])
        elif k == "seq":
            es = [{"l": x["l"], "n": put(x["e"])} for x in e["es"]]
            a = {kk: vv for kk, vv in e["a"].items() if kk != "form"}
            if a["k"] == "cond": a["msg"] = norm_tok(a["msg"])
            n.update(es=es, a=a)
        elif k == "alt": n.update(ns=[put(x) for x in e["ns"]])
        elif k in ("opt", "and", "not", "sl", "quiet"): n.update(n=put(e["n"]))
        elif k == "rep":
            b = lambda q: {kk: vv for kk, vv in q.items() if kk != "ty"}
            n.update(n=put(e["n"]), min=b(e["min"]), max=b(e["max"]), sep=put(e["sep"]) if e["sep"] else 0)
        elif k == "fail": n.update(tok=norm_tok(e["tok"]))
        elif k in ("failx", "metx"): n.update(x=e["x"])
        elif k == "met": n.update(s=elems(e["s"], itype))
        elif k == "cus": n.update(c=e["c"], i=e["i"] if isinstance(e["i"], int) else 0)
        elif k == "prec":
            pre, lev = prec_ops(e)
            f = lambda o: dict(o, es=[{"l": x["l"], "n": put(x["e"])} for x in o["es"]])
            n.update(pre=[f(o) for o in pre], lev=[[f(o) for o in l] for l in lev])
        elif k == "pos": pass
        else: raise Exception(k)
        nodes.append(n)
        return len(nodes)
    rules = {}
    for r in g.rules:
        rules[r.name] = {"body": put(r.body), "params": [p[0] for p in r.params], "cache": r.cache}
    ents = []
    for en in entries:
        ents.append({"n": put(call(en[0], en[3] if len(en) > 3 else [])), "noeof": en[1], "top": en[1], "unit": 1 if g.rule(en[0]).ret is None else 0})
    return {"nodes": nodes, "rules": rules, "gargs": [{"x": x, "v": "#%d" % v} for x, v in g.gargs], "ents": ents}

# ---------------------------------------------------------------- Rust rendering
def rs_char(c, itype="str"):
    if itype == "tok": return "Tok::" + {"a": "A", "b": "B", "c": "C", "d": "D", "1": "N1", "2": "N2", "+": "Plus", ",": "Comma"}.get(c, "Other")
    t = "\\x%02x" % ord(c) if itype == "u8" and not (c.isascii() and c.isprintable()) else {"'": "\\'", '"': '"'}.get(c) or esc(c)
    return ("b'%s'" if itype == "u8" else "'%s'") % t

def esc(c):
    """A character as written in a Rust string."""
    if c in '"\\': return "\\" + c
    return {"\n": "\\n", "\r": "\\r", "\t": "\\t", "\0": "\\0"}.get(c) or (c if c.isprintable() and not unicodedata.combining(c) else "\\u{%x}" % ord(c))

def lit_src(s):
    return '"' + "".join(map(esc, s)) + '"'

def pat_src(e, itype):
    b = e["bind"]
    if e["any"]:
        body = b or "_"
    elif e["style"] == 2 and not e["inv"]:   # guard
        v = b or "c"
        body = "%s if %s" % (v, " || ".join("%s == %s" % (v, rs_char(c, itype)) for c in e["set"]))
    elif e["style"] == 1 and contiguous(e["set"]) and itype != "tok":
        body = "%s..=%s" % (rs_char(e["set"][0], itype), rs_char(e["set"][-1], itype))
        if b: body = "%s @ %s" % (b, body)
    else:
        body = " | ".join(rs_char(c, itype) for c in e["set"])
        if b: body = "%s @ (%s)" % (b, body) if len(e["set"]) > 1 else "%s @ %s" % (b, body)
    return "[" + ("^" if e["inv"] else "") + body + "]"

def contiguous(s):
    return len(s) > 1 and all(ord(s[i + 1]) == ord(s[i]) + 1 for i in range(len(s) - 1)) and s.isascii()

def rs_ty(t, itype="str"):
    if t == "U": return "()"
    if t == "C": return {"str": "char", "u8": "u8", "tok": "Tok", "rec": "char", "gen": "char"}[itype]
    if t == "S": return {"str": "&'input str", "u8": "&'input [u8]", "tok": "&'input [Tok]", "rec": "Sl", "gen": "Sl"}[itype]
    if t == "P": return "usize"
    if t == "V": return "V"
    if t[0] == "O": return "Option<%s>" % rs_ty(t[1], itype)
    if t[0] == "L": return "Vec<%s>" % rs_ty(t[1], itype)
    raise Exception(t)

# Syntactic category levels of the documented grammar:
#   0 choice, 1 sequence, 2 suffixed (repeat), 3 prefixed ($ & !), 4 primary
class Render:
    """Renders an expression with the fewest parentheses the documented syntax needs;
    rng (optional) adds redundant parentheses, layout and comments."""
    def __init__(self, itype="str", rng=None, noise=0.0, full=False):
        self.itype, self.rng, self.noise, self.full = itype, rng, noise, full    # full: parentheses around everything

    def ws(self):
        if self.rng and self.rng.random() < self.noise:
            return self.rng.choice(["  ", "\n", " /* c */ ", " // c\n ", "\t"])
        return " "

    def at(self, e, level):
        s, l = self.raw(e)
        if l < level or self.full:
            return "(" + s + ")"
        if self.rng and self.rng.random() < self.noise * 0.5:
            return "(" + s + ")"
        return s

    def action(self, a):
        if a["k"] == "none": return ""
        nd = 'nd("%s", vec![%s])' % (a["t"], ", ".join("%s.v()" % x for x in a["args"]))
        if a["k"] == "node": return "{ %s }" % nd
        op = a["op"]
        if op == "no": c = "false"
        elif op == "yes": c = "true"
        elif op == "same": c = "%s.v() == %s.v()" % (a["x"], a["y"])
        else: c = '%s.v() %s "%s"' % (a["x"], "==" if op == "eq" else "!=", a["v"])
        msg = lit_src(a["msg"])
        if a["form"] == 1: return "{? if !(%s) { return Err(%s); } Ok(%s) }" % (c, msg, nd)
        if a["form"] == 2: return "{? let ok: Result<(), &'static str> = if %s { Ok(()) } else { Err(%s) }; ok?; Ok(%s) }" % (c, msg, nd)
        return "{? if %s { Ok(%s) } else { Err(%s) } }" % (c, nd, msg)

    def bound(self, b):
        if b["k"] == "none": return ""
        if b["k"] == "int": return str(b["i"]) if not (self.rng and self.rng.random() < 0.2) else "{%d}" % b["i"]
        return "{ %s as usize }" % b["x"] if b["ty"] == "num" else "{ cnt(&%s) }" % b["x"]

    def suffix(self, e):
        mn, mx = e["min"], e["max"]
        sep = " " + self.at(e["sep"], 4) if e["sep"] else ""
        dbl = bool(e["sep"])
        if mx["k"] == "none" and mn["k"] == "none": return ("**" if dbl else "*") + sep
        if e["form"] == "plus" and mx["k"] == "none" and mn == {"k": "int", "i": 1}:
            return ("++" if dbl else "+") + sep
        star_ = "**" if dbl else "*"
        if mn == mx: return star_ + "<" + self.bound(mn) + ">" + sep
        return star_ + "<" + self.bound(mn) + "," + self.ws() + self.bound(mx) + ">" + sep

    def seq_src(self, es, act):
        parts = []
        for x in es:
            # a labelled or unlabelled element is at 'suffixed' level; a nested sequence
            # or choice needs parentheses
            parts.append((x["l"] + ":" if x["l"] else "") + self.at(x["e"], 2))
        if act: parts.append(act)
        return self.ws().join(parts)

    def args(self, e):
        out = []
        for a in e["args"]:
            if a["k"] == "e": out.append("<" + self.at(a["e"], 0) + ">")
            elif a["k"] == "s": out.append(lit_src(a["s"]))
            elif a["k"] == "v": out.append(a["v"][1:])
            else: out.append(a["x"])
        return ", ".join(out)

    def raw(self, e):
        k = e["k"]
        if k == "lit": return lit_src(e["s"]), 4
        if k == "pat": return pat_src(e, self.itype), 4
        if k == "call":
            if re.fullmatch("_+", e["r"]): return e["r"], 4
            return e["r"] + e.get("turbo", "") + "(" + self.args(e) + ")", 4
        if k == "par": return e["x"] + "()", 4
        if k == "seq":
            act = self.action(e["a"])
            s = self.seq_src(e["es"], act)
            # a one-element sequence without action is its element and never built
            return s, 1
        if k == "alt": return (self.ws() + "/" + self.ws()).join(self.at(x, 1) for x in e["ns"]), 0
        if k == "opt": return self.at(e["n"], 3) + "?", 2
        if k == "rep": return self.at(e["n"], 3) + self.suffix(e), 2
        if k == "and": return "&" + self.at(e["n"], 4), 3
        if k == "not": return "!" + self.at(e["n"], 4), 3
        if k == "sl": return "$" + self.at(e["n"], 4), 3
        if k == "pos": return "position!()", 4
        if k == "quiet": return "quiet!{" + self.ws() + self.at(e["n"], 0) + " }", 4
        if k == "fail": return "expected!(%s)" % lit_src(e["tok"]), 4
        if k == "failx": return "expected!(%s)" % e["x"], 4
        if k == "cus":
            # one closure per matcher kind; the helpers live in the harness support module
            f = {"take": "cu_take(input, pos, %s)" % e["i"], "never": "cu_never(input, pos)", "rest": "cu_rest(input, pos)",
                 "here": "cu_here(input, pos)", "tick": 'cu_tick("%s", pos)' % e["i"], "end": "cu_end(input, pos)", "skip": "cu_skip(input, pos, %s)" % e["i"]}.get(e["c"])
            if e.get("m"): return "##m_%s(%s)" % (e["c"], e["i"] if e["c"] in ("take", "back", "skip") else ""), 4
            if e["c"] == "back": f = "cu_back(input, pos, %s)" % e["i"]
            if e["c"] == "never": f = "RuleResult::<V>::Failed"
            return "#{|input, pos| %s}" % f, 4
        if k == "met": return "##parse_string_literal(%s)" % lit_src(e["s"]), 4
        if k == "metx": return "##parse_string_literal(%s)" % e["x"], 4
        if k == "prec": return self.prec(e), 4
        raise Exception(k)

    def prec(self, e):
        out = []
        if e["wrap"]:
            out.append('l:position!() n:@ r:position!() { wv("%s", l, n, r) }' % e["wrap"])
        for lv in e["levels"]:
            ops = []
            for op in lv:
                # pv() fixes the operand type, which Rust may not know yet at this point
                opnd = (op.get("la"), op.get("ra"))
                act = '{ nd("%s", vec![%s]) }' % (op["t"], ", ".join("pv(&%s)" % x if x in opnd else "%s.v()" % x for x in op["args"]))
                es = self.seq_src(op["es"], "")
                la = (op["la"] + ":") if op.get("la") else ""
                ra = (op["ra"] + ":") if op.get("ra") else ""
                if op["ki"] == "atom": s = es
                elif op["ki"] == "prefix": s = es + " " + ra + ("(@)" if op["assoc"] == "r" else "@")
                elif op["ki"] == "postfix": s = la + ("(@)" if op.get("assoc") == "l" else "@") + " " + es
                else: s = la + ("(@) " if op["assoc"] == "l" else "@ ") + es + " " + ra + ("@" if op["assoc"] == "l" else "(@)")
                ops.append(s + " " + act)
            out.append("\n".join(ops))
        first = out[0] + ("\n--\n" if e["wrap"] else "") if e["wrap"] else ""
        rest = out[1:] if e["wrap"] else out
        return "precedence!{\n" + first + "\n--\n".join(rest) + "\n}"

    def rule(self, r):
        attrs = {"no": "", "memo": "#[cache] ", "lr": "#[cache_left_rec] "}[r.cache]
        if r.noeof: attrs += "#[no_eof] "
        ps = []
        for (x, ty) in r.params:
            ps.append("%s: %s" % (x, {"rule:V": "rule<V>", "rule:U": "rule<()>", "rule:T": "rule<T>", "rule:U2": "rule<U2>", "num": "u32", "str": "&'static str", "ref": "&'input str", "any": "T", "bool": "bool"}[ty]))
        us = re.fullmatch("_+", r.name)
        head = "rule %s%s%s" % (r.name, r.generics, "" if us and not ps else "(%s)" % ", ".join(ps))
        ret = "" if r.ret is None else " -> " + (r.ret if isinstance(r.ret, str) and r.ret not in "UCSPV" else rs_ty(r.ret, self.itype))
        return "%s%s%s%s = %s%s" % (attrs, "pub " if r.pub else "", head, ret, self.at(r.body, 0), ";" if self.rng and self.rng.random() < self.noise else "")

    def grammar(self, g, intype):
        ga = ", ".join("%s: u32" % x for x, _ in g.gargs)
        rules = "\n  ".join(self.rule(r) for r in g.rules)
        return "peg::parser!{ pub grammar %s(%s) for %s {\n  use peg::{ParseLiteral, RuleResult};\n  %s\n} }\n" % (g.name, ga, intype, rules)
