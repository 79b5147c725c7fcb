"""The tree's own parser generator, run on grammar texts."""
import os, re, threading
from concurrent.futures import ThreadPoolExecutor
from repo import *

def build_bin(work, src=None, name="rust-peg"):
    """Build the stand-alone generator of a tree; returns the executable."""
    src = src or REPO
    d = os.path.join(work, "gen-target")
    p = run(["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(src, "peg-macros", "Cargo.toml"), "--bin", name, "--target-dir", d], timeout=800)
    if p.returncode != 0: raise ToolError("the generator does not build:\n" + p.stderr.decode()[-3000:])
    return os.path.join(d, "debug", name)

def generate(exe, text, path, timeout=20):
    """(exit status, output, error output)"""
    open(path, "w").write(text)
    try: p = subprocess.run([exe, path], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired: return ("hang", "", "")
    return (p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"))

def generate_all(exe, texts, work, post=lambda r: r):
    os.makedirs(work, exist_ok=True)
    loc = threading.local()
    cnt = [0]
    def one(t):
        if not hasattr(loc, "p"):
            cnt[0] += 1
            loc.p = os.path.join(work, "in-%d-%d" % (threading.get_ident(), cnt[0]))
        return post(generate(exe, t, loc.p))
    with ThreadPoolExecutor(NCPU) as ex: return list(ex.map(one, texts, chunksize=16))

RX = re.compile(r'compile_error ! \("((?:[^"\\]|\\.)*)"\)')
def errors_of(r):
    """Messages of the errors in generated code; None if it was not generated."""
    rc, out, err = r
    if rc != 0: return None
    return [m.replace('\\"', '"') for m in RX.findall(out)]

KINDS = [("undef", r"undefined rule `(.+)`"), ("dup", r"duplicate rule `(.+)`"), ("arity", r"this rule takes \d+ parameters? but \d+ parameters? were supplied"),
         ("novalue", r"using result of rule `(.+)`, which does not return a value"), ("parargs", r"rule closure does not accept arguments"),
         ("pargen", r"rule closure cannot have generics"), ("cacheparam", r"rules with generics or parameters cannot use #\[cache\] or #\[cache_left_rec\]"),
         ("pubparam", r"parameters on `pub rule` must be Rust types"), ("noeof", r"#\[no_eof\] is only meaningful for `pub rule`"), ("marker", r"`@` is only allowed in `precedence!\{\}`"),
         ("emptyop", r"incomplete rule"), ("assoc", r"precedence rules must use `@` and `\(@\)` to indicate associativity"), ("badspan", r"span capture rule must be .*")]

def classify(msgs):
    """Verdict record for Verdict.tla out of messages [(text, name pointed at or '*')]."""
    lr, loops, form, other = [], 0, [], []
    for m, at in msgs:
        q = re.fullmatch(r"left recursive rules create an infinite loop: (.*)", m)
        if q: lr.append(q.group(1).split(" -> ")); continue
        if m.startswith("loops infinitely because"): loops += 1; continue
        for k, rx in KINDS:
            q = re.fullmatch(rx, m)
            if q:
                form.append({"kind": k, "name": q.group(1) if q.groups() else at})
                break
        else: other.append(m)
    return dict(lr=lr, loops=loops, form=form, other=1 if other else 0), other
