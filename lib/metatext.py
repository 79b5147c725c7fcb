"""Sentences of the grammar syntax: derived from MetaGrammar.tla, mutated, rendered; readings recorded."""
import os, re, json, random
from repo import *
from generator import generate_all
import tla

CFG = "SPECIFICATION Spec\nPOSTCONDITION AllChecked\nCHECK_DEADLOCK FALSE\n"

def syntax(work):
    """The syntax as TLC evaluates it."""
    os.makedirs(work, exist_ok=True)
    f, c = os.path.join(work, "syntax.json"), os.path.join(work, "none.json")
    json.dump({"cases": []}, open(c, "w"))
    r = tla.tlc("Reading", CFG, os.path.join(work, "syn"), defs={"CORPUS": c, "SYNTAX": f})
    if not os.path.exists(f): raise tla.ToolError("no syntax: " + r.out[-2000:])
    return json.load(open(f))

# tokens here: ("i", s) ("l", s) ("p", s, joint) ("o", s) ("c", s)
IDS = ["a", "bc", "x1", "_", "__", "___", "____", "expr", "T", "u8", "str", "grammar", "as", "for", "dyn", "impl", "mut", "position", "quiet", "expected", "precedence", "cache", "crate", "doc", "no_eof", "self", "super", "fn"]
LITS = ['"a"', '"+"', "'c'", "1", "0", "12", 'b"x"', '" text"', "2u8"]
INNER = {"(": [[], [("i", "x")], [("l", '"e"')], [("i", "u8"), ("p", ",", 0), ("i", "u8")], [("p", "&", 0), ("i", "u8")]],
         "{": [[], [("i", "v")], [("p", "?", 0), ("i", "v")], [("l", "1")], [("p", "|", 0), ("i", "input"), ("p", ",", 0), ("i", "pos"), ("p", "|", 0), ("i", "x")]],
         "[": [[], [("l", "'a'")], [("p", "^", 0), ("l", "'a'")], [("i", "_")], [("i", "u8")], [("l", "'a'"), ("p", "|", 0), ("l", "'b'")]]}
CLOSE = {"(": ")", "{": "}", "[": "]"}

def words(s):
    """Tokens of a word of the syntax."""
    if re.match(r"\w", s): return [("i", s)]
    if s in "({[": return [("o", s)]
    if s in ")}]": return [("c", s)]
    return [("p", c, 1 if n + 1 < len(s) else 0) for n, c in enumerate(s)]

class Deriver:
    def __init__(self, syn, rng):
        self.syn, self.r = syn, rng
        self.cost = {}
        self.costs()
    def costs(self):
        """Smallest derivation depth of every rule."""
        INF = 10 ** 6
        self.cost = {r: INF for r in self.syn}
        while True:
            new = {r: 1 + self.c(e) for r, e in self.syn.items()}
            if new == self.cost: break
            self.cost = new
    def c(self, e):
        k = e["k"]
        if k == "seq": return max([self.c(x) for x in e["es"]], default=0)
        if k == "or": return min(self.c(x) for x in e["es"])
        if k in ("rep", "list"): return self.c(e["x"]) if e["n"] else 0
        if k == "ref": return self.cost[e["r"]]
        return 0
    def derive(self, e, d):
        r, k = self.r, e["k"]
        if k == "word": return words(e["s"])
        if k == "ident": return [("i", r.choice(IDS[:10] if r.random() < 0.8 else IDS))]
        if k == "under": return [("i", r.choice(["_", "__", "___"]))]
        if k == "lit": return [("l", r.choice(LITS))]
        if k == "group": return [("o", e["s"])] + r.choice(INNER[e["s"]]) + [("c", CLOSE[e["s"]])]
        if k == "until": return r.choice([[("i", "n")], [("l", "1")], [("p", "&", 0), ("i", "n")], [("o", "("), ("i", "a"), ("p", ",", 0), ("i", "b"), ("c", ")")], [("i", "n"), ("p", "+", 0), ("l", "1")], [("o", "{"), ("i", "n"), ("p", ">", 0), ("l", "1"), ("c", "}")], [("p", r.choice("?*+/$&!@:;<=#-.|^%~"), 0), ("i", "n")], [("i", "n"), ("p", r.choice("?*+/$&!@:;<=#-.|^%~"), 0), ("l", "1")]])
        if k == "seq": return [t for x in e["es"] for t in self.derive(x, d)]
        if k == "not": return []
        if k == "opt":
            return self.derive(e["x"], d) if self.c(e["x"]) < d and r.random() < 0.4 else []
        if k in ("rep", "list"):
            n = e["n"] + (0 if self.c(e["x"]) >= d else r.choices([0, 1, 2, 3], [4, 4, 2, 1])[0])
            out = []
            for i in range(n):
                if i and k == "list": out += self.derive(e["s"], d)
                out += self.derive(e["x"], d)
            return out
        if k == "or":
            ok = [x for x in e["es"] if self.c(x) < d] or [min(e["es"], key=self.c)]
            return self.derive(r.choice(ok), d)
        if k == "ref": return self.derive(self.syn[e["r"]], d - 1)
        raise Exception(k)

def sentence(dv, size):
    """A grammar; most of its parts are expressions."""
    r = dv.r
    q = r.random()
    if q < 0.25: return dv.derive(dv.syn["grammar"], size)
    head = words("pub") * r.randint(0, 1) + words("grammar") + [("i", "g")] + words("(") + words(")") + words("for") + [("i", "str")] + words("{")
    out = []
    for _ in range(r.choice([1, 1, 2])):
        if q < 0.75: out += words("rule") + [("i", "r")] + words("(") + words(")") + words("=") + dv.derive(dv.syn["expression"], size)
        else: out += dv.derive(dv.syn[r.choice(["rule", "rule", "item"])], size)
    return head + out + words("}")

class Aimed(Deriver):
    """Short sentences that pass through one chosen place of the syntax and do something there:
    every alternative, every optional part left out, written and written twice, every repetition
    one below, at and above what it allows, every separator missing, leading, trailing and doubled,
    every word left out and doubled."""
    def kids(self, e):
        k = e["k"]
        return e["es"] if k in ("seq", "or") else [e["x"]] + ([e["s"]] if k == "list" else []) if k in ("opt", "rep", "list") else []
    def places(self):
        out = []
        def go(e):
            if e["k"] not in ("ref", "not", "seq"): out.append(e)
            for x in self.kids(e): go(x)
        for r in sorted(self.syn): go(self.syn[r])
        return out
    def aim(self, target):
        INF = 10 ** 6
        self.t, self.dist = target, {r: INF for r in self.syn}
        while True:
            new = {r: 1 + self.lead(e) for r, e in self.syn.items()}
            if new == self.dist: break
            self.dist = new
    def lead(self, e):
        if e is self.t: return 0
        if e["k"] == "ref": return self.dist[e["r"]]
        return min((self.lead(x) for x in self.kids(e)), default=10 ** 6)
    def small(self, e): return self.derive(e, self.c(e) + self.r.choice([0, 0, 1]))
    def acts(self):
        e, k = self.t, self.t["k"]
        if k == "opt": return [0, 1, 2]
        if k == "rep": return [n for n in range(max(0, e["n"] - 1), e["n"] + 3)]
        if k == "list": return [n for n in range(max(0, e["n"] - 1), e["n"] + 3)] + ["lead", "trail", "twice", "none"]
        if k == "or": return list(range(len(e["es"])))
        return [0, 2]
    def act(self, a):
        e, k = self.t, self.t["k"]
        if k == "or": return self.small(e["es"][a])
        if k == "list":
            n = a if isinstance(a, int) else max(2, e["n"])
            sep = lambda i: self.small(e["s"]) * {"twice": 2, "none": 0}.get(a, 1) if i else []
            return (self.small(e["s"]) if a == "lead" else []) + [t for i in range(n) for t in sep(i) + self.small(e["x"])] + (self.small(e["s"]) if a == "trail" else [])
        x = e["x"] if k in ("opt", "rep") else e
        return [t for _ in range(a) for t in self.small(x)]
    def via(self, e, a):
        if e is self.t: return self.act(a)
        k = e["k"]
        if self.lead(e) >= 10 ** 6: return self.small(e)
        if k == "ref": return self.via(self.syn[e["r"]], a)
        best = min(self.kids(e), key=self.lead)
        if k == "or": return self.via(best, a)
        if k == "seq": return [t for x in e["es"] for t in (self.via(x, a) if x is best else self.small(x))]
        if k == "list" and best is e["s"]: return self.small(e["x"]) + self.via(best, a) + self.small(e["x"])
        if k in ("rep", "list") and e["n"] > 1:
            return self.via(best, a) + [t for _ in range(e["n"] - 1) for t in (self.small(e["s"]) if k == "list" else []) + self.small(e["x"])]
        return self.via(best, a)

def aimed(syn, rng):
    """One sentence (or something close to one) for everything that can be done in every place."""
    d = Aimed(syn, rng)
    out = []
    for t in d.places():
        d.aim(t)
        if d.dist["grammar"] >= 10 ** 6: continue
        for a in d.acts():
            s = d.via(syn["grammar"], a)
            if s and balanced(s): out.append(s)
    return out

def balanced(ts):
    st = []
    for t in ts:
        if t[0] == "o": st.append(t[1])
        elif t[0] == "c" and (not st or CLOSE[st.pop()] != t[1]): return False
    return not st

def spans(ts):
    """index of the closing token of every opening one"""
    st, out = [], {}
    for i, t in enumerate(ts):
        if t[0] == "o": st.append(i)
        elif t[0] == "c": out[st.pop()] = i
    return out

ANY = [("i", "a"), ("i", "_"), ("i", "pub"), ("i", "rule"), ("i", "use"), ("i", "where"), ("i", "type"), ("i", "for"), ("i", "as"), ("i", "position"), ("i", "quiet"), ("l", '"a"'), ("l", "1")] + [("p", c, 0) for c in "?*+/$&!@:;,<>=#-.|^%~"]

def mutate(ts, r):
    """One edit that keeps the delimiters balanced."""
    ts = list(ts)
    sp = spans(ts)
    i = r.randrange(len(ts))
    q = r.random()
    def unit(i):
        if ts[i][0] == "o": return (i, sp[i] + 1)
        if ts[i][0] == "c": return next((o, c + 1) for o, c in sp.items() if c == i)
        if ts[i][0] == "p" and ts[i][1] == "'": return (i, i + 2)
        if i and ts[i - 1][:2] == ("p", "'"): return (i - 1, i + 1)
        return (i, i + 1)
    a, b = unit(i)
    if q < 0.25: return ts[:a] + ts[b:]
    if q < 0.45: return ts[:a] + r.choice([[r.choice(ANY)], [r.choice(ANY)], words(r.choice(["::", "->", "**", "++", "--", "##"])), words("(") + words(")"), words("[") + words("]"), words("{") + words("}")]) + ts[a:]
    if q < 0.6: return ts[:a] + [r.choice(ANY)] + ts[b:]
    if q < 0.7: return ts[:b] + ts[a:b] + ts[b:]
    if q < 0.78 and ts[a][0] == "o":     # without its delimiters, or with others
        if r.random() < 0.4: return ts[:a] + ts[a + 1:b - 1] + ts[b:]
        d = r.choice("({[")
        return ts[:a] + [("o", d)] + ts[a + 1:b - 1] + [("c", CLOSE[d])] + ts[b:]
    if q < 0.86 and b < len(ts) and ts[b][0] != "c":
        c, d = unit(b)
        return ts[:a] + ts[c:d] + ts[a:b] + ts[d:]
    if q < 0.93:
        d = r.choice("({[")
        return ts[:a] + [("o", d)] + ts[a:b] + [("c", CLOSE[d])] + ts[b:]
    if ts[i][0] == "p" and ts[i][1] != "'": ts[i] = ("p", ts[i][1], 1 - ts[i][2])
    return ts

def render(ts, noise=None):
    """(text, tokens for the specification, column of every token).  A joint token is
    followed by its successor without space."""
    out, col, toks, n = [], [], [], 0
    ends = spans(ts)
    text = ""
    for i, t in enumerate(ts):
        nx = ts[i + 1] if i + 1 < len(ts) else None
        j = 0
        if t[0] == "p":
            if t[1] == "'": j = 1
            elif t[2] and nx and nx[0] == "p" and nx[1] != "'" and t[1] + nx[1] not in ("//", "/*"): j = 1
        col.append(len(text))
        text += t[1]
        if not j: text += (noise() if noise else " ")
        toks.append({"k": t[0], "s": t[1], "j": j, "m": ends[i] + 2 if t[0] == "o" else 0})
    return text, toks, col

def expected_of(msg):
    """The reported set out of 'expected one of "a", "b"'."""
    m = re.match(r"(?:expected )?(?:one of )?(.*)$", msg.strip(), re.S)
    s = m.group(1)
    if s == "": return []
    items = re.findall(r'"(?:\\.|[^"\\])*"|[^,"]+', s)
    return [x.strip()[1:-1] if x.strip().startswith('"') else x.strip() for x in items if x.strip()]

def reading(r):
    """Record for Reading.tla out of a run of the generator; None if the text is not made of tokens."""
    rc, out, err = r
    if rc == 0: return {"ok": 1, "exp": [], "at": 0}
    m = re.search(r"Failed to parse grammar: expected (.*)$", err, re.S)
    if m and rc == 1: return {"ok": 0, "exp": expected_of(m.group(1)), "at": 0}
    if "Error tokenizing" in err: return None
    return {"ok": 2, "exp": [], "at": 0, "err": err[-400:]}
