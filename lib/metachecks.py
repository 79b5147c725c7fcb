"""Checks of C17 and C20: how grammar texts are read."""
from core import *
from generator import *
import metatext as mt
from analysischecks import build_bin

def judge_readings(ctx, tag, cases, timeout=800):
    work = os.path.join(ctx.work, tag)
    os.makedirs(work, exist_ok=True)
    nproc = max(1, min(NCPU, len(cases) // 60 + 1))
    def one(k):
        path = os.path.join(work, "c%d.json" % k)
        json.dump({"cases": cases[k::nproc]}, open(path, "w"))
        r = tla.tlc("Reading", CFG, os.path.join(work, "t%d" % k), timeout=timeout, defs={"CORPUS": path})
        return tla.tlc_ok(r, "Reading chunk %d" % k)
    with ThreadPoolExecutor(nproc) as ex: rs = list(ex.map(one, range(nproc)))
    mis, st = {}, {}
    for r in rs:
        for l in r.lines("@MIS"):
            i, _, t = l.partition(" "); mis[int(i)] = t
        for l in r.lines("@ST"):
            f = [int(x) for x in l.split()]; st[f[0]] = f[1:]
    return mis, st

def sentences(ctx, tag, n):
    """Token sequences derived from the syntax, and edited ones."""
    rng = ctx.rng(tag)
    dv = mt.Deriver(mt.syntax(os.path.join(ctx.work, "syntax")), rng)
    out, seen = [], set()
    while len(out) < n:
        s = mt.sentence(dv, rng.choice([5, 7, 9, 11]))
        if len(s) > 160: continue
        q = rng.random()
        if q > 0.35:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                try: s = mt.mutate(s, rng)
                except IndexError: pass
        if not s or tuple(s) in seen: continue
        seen.add(tuple(s)); out.append(s)
    return out

def places(ctx, tag, n):
    """Everything that can be done at every place of the syntax, n times over."""
    rng = ctx.rng(tag)
    syn = mt.syntax(os.path.join(ctx.work, "syntax"))
    out = {}
    for _ in range(n):
        for s in mt.aimed(syn, rng): out[tuple(s)] = s
    ctx.count("aimed_sentences", len(out))
    return list(out.values())

def compare(ctx, tag, ss, exe):
    """Readings of the generator against the specification; returns them."""
    ren = [mt.render(s) for s in ss]
    res = generate_all(exe, [r[0] for r in ren], os.path.join(ctx.work, tag))
    cases = []
    for i, (r, x) in enumerate(zip(ren, res)):
        o = mt.reading(x)
        if o is None: ctx.count("not_tokens"); continue
        if o["ok"] == 2:
            ctx.problem("CRASH", "the generator does not come to a verdict: %s" % o["err"], grammar=r[0]); continue
        cases.append(dict(id=i, t=r[1], o=o))
    mis, st = judge_readings(ctx, tag, cases)
    for i in sorted(mis): ctx.problem("READ", "%s; recorded: %s" % (mis[i], res[i][2].strip() or "read"), grammar=ren[i][0])
    ctx.count("texts", len(cases)); ctx.count("texts_in_the_syntax", sum(v[0] for v in st.values()))
    ctx.count("texts_rejected", sum(1 - v[0] for v in st.values()))
    ctx.validated += len(cases)
    for i in (5, len(ss) // 2):
        ctx.sample(component=tag, text=ren[i][0][:500], recorded=res[i][2].strip()[:300] or "read")
    ctx.log(tag, len(cases), "readings compared,", len(mis), "differences")
    return ren, res, st

def located(ctx, tag, ren, ids):
    """What the macro reports for rejected texts: expected set and the token it points at."""
    d = fresh_dir(os.path.join(WORK, ctx.prop + "_rustc"))
    cargo_project(d, "h")
    put(os.path.join(d, "src", "lib.rs"), "")
    b = os.path.join(d, "src", "bin")
    if os.path.isdir(b): shutil.rmtree(b)
    peg_builds(d)
    where = {}
    for k in range(NCPU):
        lines = ["#![allow(warnings)]"]
        for i in ids[k::NCPU]:
            lines += ["mod m%d { peg::parser!{" % i, ren[i][0], "} }"]
            where[(k, len(lines) - 1)] = i
        put(os.path.join(b, "d%d.rs" % k), "\n".join(lines + ["fn main() {}"]) + "\n")
    p = run(["cargo", "check", "--offline", "--bins", "--keep-going", "-Z", "unstable-options", "--message-format=json"], cwd=d, timeout=800, extra_env={"RUSTC_BOOTSTRAP": "1"})
    got = {}
    for line in p.stdout.decode(errors="replace").splitlines():
        try: m = json.loads(line)
        except ValueError: continue
        if m.get("reason") != "compiler-message": continue
        t, m = m["target"]["name"], m["message"]
        if m.get("level") != "error" or m.get("code") or not re.fullmatch(r"d\d+", t): continue
        for sp in m["spans"][:1]:
            while sp.get("expansion") and not re.search(r"d\d+\.rs$", sp["file_name"]): sp = sp["expansion"]["span"]
            # an error at the end of the text points at the whole macro call
            for ln in (sp["line_start"], sp["line_start"] + 1):
                i = where.get((int(t[1:]), ln))
                if i is not None:
                    got.setdefault(i, []).append((m["message"], sp["column_start"] if ln == sp["line_start"] else 0)); break
    cases = []
    for i in ids:
        text, toks, col = ren[i]
        if i not in got: ctx.count("not_located"); continue
        msg, c = got[i][0]
        if not msg.startswith("expected"): ctx.count("not_located"); continue
        end = msg.endswith(" at end of input")
        msg = msg[:-len(" at end of input")] if end else msg
        # columns count characters from 1
        at = [n + 1 for n, x in enumerate(col) if x + 1 == c]
        at = at[0] if at else len(toks) + 1 if end else -1
        cases.append(dict(id=i, t=toks, o={"ok": 0, "exp": mt.expected_of(msg), "at": at}))
    mis, st = judge_readings(ctx, tag, cases)
    for i in sorted(mis): ctx.problem("REPORT", "%s; recorded: %s" % (mis[i], got[i][:2]), grammar=ren[i][0])
    ctx.count("errors_of_the_macro_compared", len(cases)); ctx.validated += len(cases)
    ctx.log(tag, len(cases), "error reports compared,", len(mis), "differences")

def c17(ctx):
    from parsechecks import family, family_items, rep_family, well, legal
    import copy
    os.makedirs(ctx.work, exist_ok=True)
    exe = build_bin(ctx.work)
    ren, res, st = compare(ctx, "read", sentences(ctx, "read", ctx.n(4000, 60000)) + places(ctx, "aim", ctx.n(4, 40)), exe)
    bad = [i for i, v in st.items() if v[0] == 0]
    located(ctx, "loc", ren, pick_(ctx, "loc", bad, ctx.n(700, 6000)))
    # what is read means what it says: the same grammars written with the fewest parentheses,
    # with parentheses around everything, and with other layout
    rng = ctx.rng("mean")
    base = []
    prof = profile(prec=1.2, cond=2, bound=0.8, sepw=0.6, tmpl=0.5, memo=0.2, gargs=0.3, cus=0.8, depth=5)
    for it in items_random(ctx, "mean", ctx.n(45, 400), prof, ("str", "str", "u8"), ninp=20): base.append(it)
    for it in family_items(ctx, "fam", pick_(ctx, "fam", nest_family(), ctx.n(300, 6000)), maxlen=4): base.append(it)
    items = []
    for it in base:
        for how in ("plain", "full", "noise"):
            g = copy.deepcopy(it.g)
            g.full = how == "full"
            if how == "noise": g.rng, g.noise = random.Random(rng.random()), 0.5
            items.append(Item(g, it.entries, it.inputs, note=how))
    run_items(ctx, "mean", items, {"RES", "ABORT", "END", "VAL", "EXP", "LOC"})
    return finish(ctx, "model_checking", assumptions=("the generator binary and the macro of the working tree read each text; TLC decides from MetaGrammar.tla whether it is a grammar, and otherwise what is missing where",
        "the tokens of a text are those of the Rust lexer", "renderer (lib/gram.py, lib/metatext.py) and TLC are trusted"))

def pick_(ctx, tag, xs, n):
    return xs if len(xs) <= n else sorted_sample(ctx.rng(tag), xs, n)
def sorted_sample(rng, xs, n):
    ix = sorted(rng.sample(range(len(xs)), n))
    return [xs[i] for i in ix]

def nest_family():
    """Every operator over every operator, next to a neighbour that it must not capture."""
    from parsechecks import legal
    A, B = lit("a"), lit("b")
    un = [lambda x: opt(x), lambda x: star(x), lambda x: plus(x), lambda x: and_(x), lambda x: not_(x), lambda x: sl(x), lambda x: quiet(x),
          lambda x: rep(x, bi(1), bi(2)), lambda x: rep(x, bi(2), bi(2), None, "exact"), lambda x: rep(x, NB, bi(1)), lambda x: star(x, B), lambda x: plus(x, B), lambda x: rep(x, bi(1), bi(2), B),
          lambda x: star(B, x), lambda x: plus(A, x)]
    two = [lambda x, y: seq([x, y]), lambda x, y: alt(x, y), lambda x, y: seq([el(x, "p"), el(y)], node("n", ["p"])), lambda x, y: alt(seq([el(x)], node("m", [])), seq([el(y)], node("k", [])))]
    inner = [A, seq([A, B]), alt(A, B), seq([A], node("q", []))] + [u(A) for u in un] + [u(alt(A, B)) for u in un[:6]] + [u(seq([A, B])) for u in un]
    out = []
    for u in un:
        for x in inner:
            e = u(x)
            out += [e, seq([e, B]), alt(e, B), seq([B, e])]
    for t in two:
        for x in inner:
            for y in inner: out.append(t(x, y))
    return [e for e in out if legal(e)]

# ------------------------------------------------------------------ C20
def c20(ctx):
    os.makedirs(ctx.work, exist_ok=True)
    exe1 = build_bin(ctx.work)
    src = os.path.join(REPO, "peg-macros", "grammar.rustpeg")
    d = fresh_dir(os.path.join(ctx.work, "stage2"))
    def stage(exe, n):
        """The generator whose parser is generated by exe from grammar.rustpeg."""
        t = os.path.join(d, "tree%d" % n)
        if os.path.exists(t): shutil.rmtree(t)
        shutil.copytree(REPO, t, ignore=shutil.ignore_patterns(".git", "target"))
        p = run([exe, src], timeout=120)
        if p.returncode != 0:
            ctx.problem("SELF", "the generator does not read its own grammar: %s" % p.stderr.decode()[-300:]); return None, None
        text = p.stdout.decode()
        if RX.search(text):
            ctx.problem("SELF", "the generator finds errors in its own grammar: %s" % errors_of((0, text, ""))[:3]); return None, None
        open(os.path.join(t, "peg-macros", "grammar.rs"), "w").write(text)
        try: return build_bin(os.path.join(d, "b%d" % n), t), text
        except ToolError as e:
            ctx.problem("SELF", "the parser generated from grammar.rustpeg does not compile: %s" % str(e)[-600:]); return None, None
    exe2, text2 = stage(exe1, 2)
    if exe2 is None: return finish(ctx, "model_checking")
    ctx.log("second stage built")
    # regeneration is stable
    texts = [text2]
    exe = exe2
    for n in range(3, 3 + ctx.n(1, 3)):
        exe, t = stage(exe, n)
        if exe is None: return finish(ctx, "model_checking")
        texts.append(t)
    for n, t in enumerate(texts[1:]):
        if t != texts[0]: ctx.problem("STABLE", "regeneration %d gives another parser" % (n + 2), first_difference=diff_at(texts[0], t))
    ctx.count("regenerations", len(texts))
    ss = sentences(ctx, "read", ctx.n(3000, 40000)) + places(ctx, "aim", ctx.n(3, 30))
    ren, res, st = compare_two(ctx, "s", ss, exe1, exe2)
    # real grammars: those of the repository and the corpora of the other checks
    own = own_texts(ctx)
    agree(ctx, "own", own, exe1, exe2)
    return finish(ctx, "model_checking", assumptions=("both parsers are run on the same texts: outcomes are compared with MetaGrammar.tla and with each other, generated code is compared literally",
        "renderer (lib/metatext.py) and TLC are trusted"))

def diff_at(a, b):
    n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return [a[max(0, n - 150):n + 150], b[max(0, n - 150):n + 150]]

def agree(ctx, tag, texts, exe1, exe2):
    """Same verdict, same expected set, same code."""
    r1 = generate_all(exe1, texts, os.path.join(ctx.work, tag + "1"))
    r2 = generate_all(exe2, texts, os.path.join(ctx.work, tag + "2"))
    for t, a, b in zip(texts, r1, r2):
        if a == b: continue
        if a[0] == b[0] == 0: ctx.problem("CODE", "the two parsers lead to different code", grammar=t, first_difference=diff_at(a[1], b[1]))
        elif mt.reading(a) is None: continue
        else:
            x, y = mt.reading(a), mt.reading(b)
            if x and y and (x["ok"], sorted(set(x["exp"]))) == (y["ok"], sorted(set(y["exp"]))): continue
            ctx.problem("DIFFER", "compiled: %s; regenerated: %s" % (a[2][-300:].strip() or "read", b[2][-300:].strip() or "read"), grammar=t)
    ctx.count("texts_given_to_both", len(texts)); ctx.count("with_code_compared", sum(1 for a in r1 if a[0] == 0))
    return r1, r2

def compare_two(ctx, tag, ss, exe1, exe2):
    ren = [mt.render(s) for s in ss]
    texts = [r[0] for r in ren]
    r1, r2 = agree(ctx, tag, texts, exe1, exe2)
    ctx.log("both ran")
    cases = []
    for n, res in ((0, r1), (1, r2)):
        for i, (r, x) in enumerate(zip(ren, res)):
            if n == 1 and x == r1[i]: continue          # the same outcome is judged once
            o = mt.reading(x)
            if o is None: continue
            if o["ok"] == 2:
                if n == 1: ctx.problem("CRASH", "the regenerated parser does not come to a verdict: %s" % o["err"], grammar=r[0])
                continue
            cases.append(dict(id=2 * i + n, t=r[1], o=o))
    mis, st = judge_readings(ctx, tag, cases)
    for k in sorted(mis):
        # a text both misread alike is not a disagreement
        i = k // 2
        if r1[i] == r2[i]: ctx.count("differences_of_other_properties")
        else: ctx.problem("READ", "%s parser: %s; recorded: %s" % (("compiled", "regenerated")[k % 2], mis[k], (r1, r2)[k % 2][i][2].strip()[-300:] or "read"), grammar=texts[i])
    ctx.count("readings_judged", len(cases)); ctx.validated += len(cases)
    ctx.count("texts_in_the_syntax", sum(v[0] for v in st.values()))
    ctx.log(tag, len(cases), "readings compared,", len(mis), "differences")
    for i in (5, len(ss) // 2): ctx.sample(text=texts[i][:500], recorded=r1[i][2].strip()[:300] or "read")
    return ren, r1, st

def own_texts(ctx):
    from analysischecks import random_grammars
    from anagram import ARender
    out = [open(os.path.join(REPO, "peg-macros", "grammar.rustpeg")).read()]
    R = ARender()
    for g in random_grammars(ctx, "own", ctx.n(600, 6000)): out.append(R.agrammar(g))
    for it in items_random(ctx, "owntyped", ctx.n(120, 1000), profile(prec=1, tmpl=0.6, memo=0.2, gargs=0.4, depth=5), ninp=1):
        s = it.unit.src
        out.append(s[s.index("{") + 1:s.rindex("}")])
    # grammars of the repository's own files
    for r, _, fs in os.walk(REPO):
        if "/target" in r or "/.git" in r: continue
        for f in fs:
            if not f.endswith(".rs") or f == "grammar.rs": continue
            s = open(os.path.join(r, f), errors="replace").read()
            for m in re.finditer(r"parser!\s*[\{\(]", s):
                depth, i = 1, m.end()
                while i < len(s) and depth:
                    depth += s[i] in "{(["; depth -= s[i] in "})]"; i += 1
                out.append(s[m.end():i - 1])
    return out
