"""C18: sessions of calls, nested, aborted and on several threads, against Session.tla."""
from core import *
from parsechecks import recache, same_as_first, COMMON, ERRPROF, lr_curated
from concurrent.futures import ThreadPoolExecutor
import subprocess

class SUnit(Unit):
    """Entries of a session unit: (function, top, alternative values of the grammar arguments)."""
    def dispatch(self, i):
        save, out = self.g.gargs, []
        for j, (fn, top, ga) in enumerate(self.entries):
            self.g.gargs = ga
            line = Unit.dispatch(_One(self, (fn, top)), i)
            out.append("%d => %s" % (j, line[line.index("=> ") + 3:]))
        self.g.gargs = save
        return "\n".join(out)

class _One:
    def __init__(self, u, en): self.g, self.entries = u.g, [en]

def schedules(ctx, calls, segs, depth, panics, threads=2):
    cfg = """SPECIFICATION Spec
CONSTANTS
 Threads = {%s}
 Calls = %d
 Segs = %d
 MaxDepth = %d
 MaxPanics = %d
INVARIANTS OnePlace Nested AllEnd AsAlone Emit
PROPERTIES Apart Final
CONSTRAINT Symmetric
CHECK_DEADLOCK FALSE
""" % (",".join(str(t + 1) for t in range(threads)), calls, segs, depth, panics)
    r = tla.tlc_ok(tla.tlc("Session", cfg, os.path.join(ctx.work, "sch%d%d%d%d" % (calls, segs, depth, threads)), workers=4, timeout=700), "Session")
    text = r.out
    out = []
    for m in re.finditer(r'<<\s*"@SCH",\s*(<<.*?>>)\s*>>\s*(?=<<\s*"@SCH"|[A-Z]|$)', text, re.S):
        out.append([(int(a), b, int(c)) for a, b, c in re.findall(r'<<(\d+), "(\w)", (\d+)>>', m.group(1))])
    ctx.count("schedules_of_the_specification", len(out)); ctx.log("schedules:", len(out))
    if len(out) < 10: raise ToolError("no schedules")
    return sorted(out)

SESSPROF = dict(call=10, memo=0.5, quiet=1.5, and_=2, not_=2, nrules=(2, 4), gargs=0.6, cus=0.8, act=8, dyn=0.6)

def session_units(ctx):
    rng = ctx.rng("units")
    out = []
    base = items_random(ctx, "rand", ctx.n(40, 160), profile(**dict(ERRPROF, **SESSPROF)), ("str", "u8", "tok", "rec", "str"), ninp=14, maxlen=9, multibyte=0.1)
    base += items_random(ctx, "lr", ctx.n(12, 50), profile(**dict(SESSPROF, lr=0.9, memo=0.2)), ("str", "rec"), ninp=14, maxlen=8)
    base += items_random(ctx, "plain", ctx.n(8, 40), profile(prec=2, memo=0.0, quiet=2, act=8), ("str", "rec"), ninp=14, maxlen=9)
    base += lr_curated(ctx, "rec", True)[:3]
    # texts of several lines
    base += items_random(ctx, "lines", ctx.n(8, 40), profile(**dict(ERRPROF, letters="a\n", nrules=(1, 3), act=6, sl=3, met=0, cus=0)), ("str",), ninp=14, maxlen=8)
    for it in base:
        g = it.g
        alts = [g.gargs]
        if g.gargs: alts += [[(x, (v + 1) % 4) for x, v in g.gargs], [(x, (v + 2) % 4) for x, v in g.gargs]]
        ents = [(en[0], en[1], ga) for en in it.entries for ga in alts]
        words = list(dict.fromkeys(s for _, s in it.inputs))
        rng.shuffle(words)
        pick = [w for w in words if len(w) >= 2][:5] + words[:1]
        # neighbours of the same length: other contents at the same positions
        letters = sorted(set("".join(words))) or ["a"]
        more = []
        for w in pick:
            for _ in range(2):
                if not w: continue
                i = rng.randrange(len(w)); c = rng.choice(letters)
                if len(c.encode()) == len(w[i].encode()): more.append(w[:i] + c + w[i + 1:])
            if len(w) > 2: more.append(w[:-1]); more.append("".join(rng.sample(w, len(w))))
        ws = list(dict.fromkeys(pick + more))[:ctx.n(9, 14)]
        jobs = [(e, w) for w in ws for e in range(len(ents))]
        rng.shuffle(jobs)
        out.append((it, ents, jobs[:ctx.n(16, 30)]))
    return out

def c18(ctx):
    rng = ctx.rng("sessions")
    units = session_units(ctx)
    h = Harness("C18_s", [SUnit(it.g, ents, it.unit.src) for it, ents, _ in units])
    h.main = "session_main"
    h.build()
    ctx.log("built", len(units), "grammars", "rejected %d" % len(h.rejected) if h.rejected else "")
    for u, msgs in h.rejected.items(): ctx.problem("COMP", "a well-formed grammar is not accepted: %s" % msgs[0][:300], grammar=units[u][0].unit.src)
    sch = schedules(ctx, 3, 2, 2, 1) + schedules(ctx, 3, 3, 3, 1)
    if ctx.thorough: sch += schedules(ctx, 4, 2, 3, 1, threads=3)
    per = ctx.n(4000, 20000)
    jobs = {}                       # bin -> list of (unit, entry, input)
    for u, (it, ents, js) in enumerate(units):
        if u in h.rejected: continue
        jobs.setdefault(h.bin_of[u], []).extend((u, e, w) for e, w in js)
    exe = lambda k: os.path.join(h.dir, "target", "debug", "c%d" % k)
    def write(k, lines=()):
        p = os.path.join(h.dir, "jobs%d.txt" % k)
        open(p, "w").write("".join("J\t%d\t%d\t%s\n" % (u, e, w.encode().hex()) for u, e, w in jobs[k]) + "".join(lines))
        return p
    def describe(k, j):
        u, e, w = jobs[k][j]
        return dict(unit=u, rule=units[u][1][e][0], grammar_arguments=units[u][1][e][2], input=w)
    # every job alone, twice
    lone = {}
    def one(kj):
        k, j = kj
        out = []
        for _ in range(2):
            p = run([exe(k), os.path.join(h.dir, "jobs%d.txt" % k), "alone", str(j)], timeout=60, mem_gb=6)
            t = p.stdout.decode(errors="replace").rstrip("\n").split("\n")[-1]
            out.append(t.split("\t", 1) if p.returncode == 0 and "\t" in t else ["0", "CRASH"])
        return out
    for k in jobs: write(k)
    keys = [(k, j) for k in jobs for j in range(len(jobs[k]))]
    with ThreadPoolExecutor(NCPU) as ex: first = dict(zip(keys, ex.map(one, keys)))
    ctx.log("ran", 2 * len(keys), "calls alone")
    ids, texts = {}, []
    def oid(t):
        if t not in ids: ids[t] = len(texts) + 1; texts.append(t)
        return ids[t]
    panicked = oid("P\tscheduled")
    hist, where = {k: [] for k in jobs}, {}
    sane = {k: [j for j in range(len(jobs[k])) if first[k, j][0][1][:1] in "OE"] for k in jobs}
    def solo(k, seq, kind):
        """Calls one after the other on one thread."""
        for i in range(0, len(seq), 6):
            ch = seq[i:i + 6]
            ev = []
            for c, (j, o) in enumerate(ch): ev += [dict(t=1, k="B", c=c + 1, f=0, o=0), dict(t=1, k="S", c=c + 1, f=1, o=oid(o))]
            hist[k].append(dict(jobs=[j + 1 for j, _ in ch], ev=ev, kind=kind))
    for k in jobs: solo(k, [(j, first[k, j][1][1]) for j in sane[k]], "again in a fresh process")
    # sessions
    for k in jobs:
        r = random.Random(rng.random())
        by = {}
        for j in sane[k]: by.setdefault(jobs[k][j][0], []).append(j)
        us = sorted(by)
        mine = [r.choice(sch) for _ in range(per)]
        plans, lines = [], []
        for s in mine:
            u = r.choice(us); u2 = r.choice(us) if r.random() < 0.15 else u
            n = max(c for _, _, c in s)
            js = [r.choice(by[u if i % 2 == 0 else u2]) for i in range(n)]
            if r.random() < 0.2: js[-1] = js[0]
            left = {}
            for c in range(1, n + 1):
                segs = sum(1 for _, kd, x in s if x == c and kd in "SU")
                cut = segs - 1
                tot = int(first[k, js[c - 1]][0][0])
                pts = sorted(r.sample(range(1, tot + 1), min(cut, tot)))
                left[c] = [b - a for a, b in zip([0] + pts, pts)]
            f = []
            for t, kd, c in s:
                arg = 0
                if kd == "B": arg = js[c - 1]
                elif kd == "S": arg = left[c].pop(0) if left[c] else 10 ** 9
                f.append("%d %s %d %d" % (t - 1, kd, c, arg))
            plans.append((js, s)); lines.append("S\t" + "\t".join(f) + "\n")
        write(k, lines)
        where[k] = plans, lines
    def sess(k):
        p = subprocess.run([exe(k), os.path.join(h.dir, "jobs%d.txt" % k), "sessions"], env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=700)
        q = subprocess.run([exe(k), os.path.join(h.dir, "jobs%d.txt" % k), "free", str(ctx.seed)], env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=700)
        return p, q
    with ThreadPoolExecutor(4) as ex: outs = dict(zip(jobs, ex.map(sess, jobs)))
    nses = 0
    for k, (p, q) in outs.items():
        plans, lines = where[k]
        evs = {}
        for l in p.stdout.decode(errors="replace").split("\n"):
            m = re.match(r"(\d+)\t(\d+) (\w) (\d+)(?:\t(.*))?$", l, re.S)
            if not m: continue
            n = int(m.group(1))
            if m.group(3) == "H":
                ctx.problem("HANG", "a call of the session does not come back", session=lines[n].strip(), jobs=[describe(k, j) for j in plans[n][0]], grammar=units[jobs[k][plans[n][0][0]][0]][0].unit.src)
                continue
            evs.setdefault(n, []).append(dict(t=int(m.group(2)) + 1, k=m.group(3), c=int(m.group(4)), f=1 if m.group(5) is not None else 0, o=oid(m.group(5)) if m.group(5) is not None else 0))
        if p.returncode not in (0, 97):
            n = max(evs or {0: 0})
            ctx.problem("CRASH", "the process ended with %d during a session" % p.returncode, session=lines[n].strip(), jobs=[describe(k, j) for j in plans[n][0]])
        for n, ev in sorted(evs.items()):
            if p.returncode != 0 and n == max(evs): continue
            hist[k].append(dict(jobs=[j + 1 for j in plans[n][0]], ev=ev, kind="session", plan=lines[n].strip())); nses += 1
        free = [l.split("\t", 1) for l in q.stdout.decode(errors="replace").split("\n") if "\t" in l]
        if q.returncode != 0: ctx.problem("CRASH", "the process ended with %d while jobs ran on several threads" % q.returncode, jobs=[describe(k, j) for j in sane[k][:5]])
        ok = set(sane[k])
        solo(k, [(int(j), o) for j, o in free if int(j) in ok], "on four threads at once")
    ctx.log("sessions:", nses)
    # conformance of the histories
    bad = validate(ctx, hist, {k: [oid(first[k, j][0][1]) for j in range(len(jobs[k]))] for k in jobs}, panicked)
    for k, n, at in bad[:40]:
        x = hist[k][n]
        e = x["ev"][min(at, len(x["ev"])) - 1]
        u = jobs[k][x["jobs"][e["c"] - 1] - 1][0]
        ctx.problem("SESSION", "%s: event %d (thread %d, call %d): %s; alone: %s" % (x["kind"], at, e["t"], e["c"], texts[e["o"] - 1] if e["o"] else "-", first[k, x["jobs"][e["c"] - 1] - 1][0][1]),
                    grammar=units[u][0].unit.src, jobs=[describe(k, j - 1) for j in x["jobs"]], plan=x.get("plan"), events=[{**y, "o": texts[y["o"] - 1] if y["o"] else ""} for y in x["ev"]])
    ctx.count("sessions_validated", nses); ctx.count("jobs", len(keys))
    ctx.count("calls_validated", sum(len(x["jobs"]) for k in hist for x in hist[k]))
    ctx.validated += sum(len(hist[k]) for k in hist)
    for k in list(jobs)[:3]:
        x = hist[k][len(hist[k]) // 2]
        ctx.sample(kind=x["kind"], jobs=[describe(k, j - 1) for j in x["jobs"]], plan=x.get("plan"))
    # the second pass of a call is not influenced by what the first one memoised
    base = items_random(ctx, "two", ctx.n(30, 300), profile(**dict(ERRPROF, call=10, quiet=2.5, and_=3, not_=3, nrules=(3, 5), memo=0)), ("str", "rec"), ninp=18, maxlen=8)
    items, group = [], {}
    for gi, it in enumerate(base):
        for v in range(2):
            group[len(items)] = (gi, v == 0)
            items.append(Item(recache(it.g, it.g.name + "_%d" % v, lambda r: v == 1), it.entries, it.inputs))
    group["loose"] = True
    run_items(ctx, "two", items, set(), judge=same_as_first(group))
    return finish(ctx, "model_checking", assumptions=COMMON + ["threads change over only in code supplied by the user (input traits, matchers, actions), apart from free runs"])

CFG = """SPECIFICATION Spec
INVARIANTS Complete AsAlone
CHECK_DEADLOCK FALSE
"""
def validate(ctx, hist, alone, panicked):
    def one(k):
        path = os.path.join(ctx.work, "hist%d.json" % k)
        os.makedirs(ctx.work, exist_ok=True)
        calls = max(len(x["jobs"]) for x in hist[k])
        with open(path, "w") as f:
            name = lambda o: "panic" if o == panicked else "o%d" % o
            json.dump(dict(histories=[dict(jobs=x["jobs"], ev=[dict(e, o=name(e["o"])) for e in x["ev"]]) for x in hist[k]], alone=[name(a) for a in alone[k]], calls=calls, threads=4), f)
        r = tla.tlc_ok(tla.tlc("SessionTrace", CFG, os.path.join(ctx.work, "st%d" % k), timeout=700, defs={"CORPUS": path}, xss="64m"), "SessionTrace")
        want = sum(len(x["ev"]) + 1 for x in hist[k])
        out = []
        for l in r.lines("@MIS"):
            f = l.split(" ")
            out.append((k, int(f[0]) - 1, int(f[1])))
        if not out and r.states != want: raise ToolError("SessionTrace saw %d of %d states" % (r.states, want))
        return out
    with ThreadPoolExecutor(NCPU) as ex: return [b for x in ex.map(one, list(hist)) for b in x]
