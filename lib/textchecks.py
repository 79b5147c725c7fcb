"""C06: positions in texts, against Text.tla."""
from core import *
import itertools

MAIN = r'''#![allow(warnings)]
#[path="../sup.rs"] mod sup;
use sup::*;
use peg::Parse;
peg::parser!{ grammar at(n: usize) for str {
  pub rule stop() = [_]*<{n}> (!() / expected!("here"))
  #[no_eof] pub rule deep() = ([_] deep0() / stop())
  rule deep0() = [_]*<{ n.saturating_sub(1) }> (!() / expected!("here"))
  pub rule lit() = [_]*<{n}> "\u{10FFFF}never"
  pub rule eof() = [_]*<{n}>
} }
peg::parser!{ grammar bt(n: usize) for [u8] { pub rule stop() = [_]*<{n}> (!() / expected!("here")) } }
peg::parser!{ grammar tk(n: usize) for [Tok] { pub rule stop() = [_]*<{n}> (!() / expected!("here")) } }
#[derive(Clone, Copy, PartialEq, Debug)] pub struct Wide(u64, u64);
peg::parser!{ grammar wd(n: usize) for [Wide] { pub rule stop() = [_]*<{n}> (!() / expected!("here")) } }

fn lc(l: &peg::str::LineCol) -> String { format!("lc|{}|{}|{}|{}", l.offset, l.line, l.column, l) }
fn ix(l: usize) -> String { format!("ix|{}|{}", l, l) }
fn er<T, L>(r: Result<T, peg::error::ParseError<L>>, f: impl Fn(&L) -> String) -> String { match r { Ok(_) => "none".into(), Err(e) => f(&e.location) } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    for l in std::fs::read_to_string(&a[1]).unwrap().lines() {
        let f: Vec<&str> = l.split('\t').collect();
        // runs: hex:count,...   boundaries: character indexes
        let mut s = String::new();
        for r in f[0].split(',').filter(|x| !x.is_empty()) {
            let (h, k) = r.split_once(':').unwrap();
            let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap();
            for _ in 0..k.parse::<usize>().unwrap() { s.push(c) }
        }
        let bounds: Vec<usize> = s.char_indices().map(|x| x.0).chain(std::iter::once(s.len())).collect();
        let toks: Vec<Tok> = s.chars().map(tok_of).collect();
        let wide: Vec<Wide> = s.chars().map(|c| Wide(c as u64, 1)).collect();
        let total = bounds.len() - 1;
        let mut out = vec![];
        for b in f[1].split(',').filter(|x| !x.is_empty()) {
            let n: usize = b.parse().unwrap();
            let mut v = vec![lc(&s[..].position_repr(bounds[n]))];
            v.push(er(at::stop(&s, n), lc));
            v.push(er(at::lit(&s, n), lc));
            if n > 0 { v.push(er(at::deep(&s, n), lc)); }
            if n < total { v.push(er(at::eof(&s, n), lc)); }
            v.push(er(tk::stop(&toks, n), |&l| ix(l)));
            v.push(er(wd::stop(&wide, n), |&l| ix(l)));
            v.push(ix(toks[..].position_repr(n)));
            if s.is_ascii() { v.push(er(bt::stop(s.as_bytes(), n), |&l| ix(l))); v.push(ix(s.as_bytes().position_repr(n))); }
            // the offset inside a larger text whose prefix is the same must not matter
            let longer = format!("{}\n\u{e9}x\n", s);
            v.push(lc(&longer[..].position_repr(bounds[n])));
            out.push(v.join(";"));
        }
        println!("{}", out.join("\t"));
    }
}
'''

ALPHA = ["a", "\n", "é", "𝄞", "\r", "\t"]
ODD = ["\u2028", "\u0085", "\u0300", "\ufeff", "\x0b", "\x0c", "\0", "€", "\u200d", "\uffff", "\U0010ffff", "\x7f", "\u07ff", "\u0800"]

def c06(ctx):
    rng = ctx.rng("texts")
    texts = []      # (runs, boundaries or None)
    L = ctx.n(5, 6)
    for n in range(L + 1):
        for w in itertools.product(ALPHA, repeat=n): texts.append(([(c, 1) for c in w], None))
    for n in range(1, 4):
        for w in itertools.product(["\n", "a"] + ODD, repeat=n):
            if n < 3 or rng.random() < ctx.n(30, 100) / 100: texts.append(([(c, 1) for c in w], None))
    for _ in range(ctx.n(400, 4000)):
        texts.append(([(rng.choice(ALPHA + ODD + ["\n", "\n", "b", "b", "b"]), 1) for _ in range(rng.randint(6, 60))], None))
    # far positions: many lines, long lines, wide characters
    for c in ["\n", "a", "é", "𝄞", "\r"]:
        for k in (255, 256, 257, 65535, 65536) if ctx.thorough else (255, 256, 65536):
            for tail in [[("a", 2)], [("\n", 1), ("é", 2)], [("é", 300), ("\n", 1)]]:
                tot = k + sum(x for _, x in tail)
                texts.append(([(c, k)] + tail, sorted({0, 1, k - 1, k, k + 1, tot - 1, tot})))
    for c, k in (("\n", 131073), ("\n", 262145), ("a", 131073), ("é", 70000), ("\n", 300000)):
        texts.append(([(c, k), ("a", 1), ("\n", 1), ("b", 2)], [0, 1, 255, k - 1, k, k + 1, k + 2, k + 4]))
    for _ in range(ctx.n(30, 200)):
        runs = [(rng.choice(["\n", "a", "é", "𝄞", "\r", "\t"]), rng.randint(1, 400)) for _ in range(rng.randint(3, 12))]
        tot = sum(k for _, k in runs)
        texts.append((runs, sorted(rng.randint(0, tot) for _ in range(12))))
    for i, (runs, at) in enumerate(texts):
        tot = sum(k for _, k in runs)
        texts[i] = (runs, sorted(set(at)) if at is not None else list(range(tot + 1)), tot)
    d = fresh_dir(os.path.join(WORK, "C06_bin"))
    cargo_project(d, "h")
    put(os.path.join(d, "src", "sup.rs"), open(os.path.join(VERIF, "harness", "sup.rs")).read())
    put(os.path.join(d, "src", "bin", "c.rs"), MAIN)
    peg_builds(d)
    p = run(["cargo", "build", "--offline", "-q"], cwd=d)
    if p.returncode: raise ToolError("C06 harness does not compile: " + p.stderr.decode()[-3000:])
    ctx.log("built;", len(texts), "texts")
    path = os.path.join(d, "texts.txt")
    open(path, "w").write("".join(",".join("%x:%d" % (ord(c), k) for c, k in runs) + "\t" + ",".join(map(str, at)) + "\n" for runs, at, _ in texts))
    p = run([os.path.join(d, "target", "debug", "c"), path], timeout=600)
    lines = p.stdout.decode().split("\n")[:-1]
    if p.returncode or len(lines) != len(texts):
        k = len(lines)
        ctx.problem("ABORT", "asking for a position crashes: %s" % p.stderr.decode()[-300:], text=[[c, n] for c, n in texts[min(k, len(texts) - 1)][0]])
        return finish(ctx, "model_checking")
    def ans(a):
        f = a.split("|", 4)
        if f[0] == "lc": return {"k": "lc", "off": int(f[1]), "line": int(f[2]), "col": int(f[3]), "d": f[4]}
        if f[0] == "ix": return {"k": "ix", "off": int(f[1]), "d": f[2]}
        return {"k": a}
    recs = []
    for (runs, at, tot), l in zip(texts, lines):
        rec = []
        for cell in l.split("\t"):
            seen = {}
            for a in cell.split(";"): seen[a] = ans(a)
            ctx.count("answers_checked", len(cell.split(";")))
            rec.append(list(seen.values()))
        ends, e = [], 0
        for _, k in runs: e += k; ends.append(e)
        recs.append({"n": tot, "runs": [{"c": cname(c), "w": len(c.encode()), "k": k} for c, k in runs], "ends": ends, "at": at, "rec": rec})
    nproc = NCPU
    os.makedirs(ctx.work, exist_ok=True)
    def one(k):
        cp = os.path.join(ctx.work, "corpus%d.json" % k)
        json.dump({"texts": recs[k::nproc]}, open(cp, "w"))
        return tla.tlc_ok(tla.tlc("Text", "SPECIFICATION Spec\nINVARIANT ByCounting\nCHECK_DEADLOCK FALSE\n", os.path.join(ctx.work, "t%d" % k), timeout=800, defs={"CORPUS": cp}), "Text")
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(nproc) as ex: rs = list(ex.map(one, range(nproc)))
    for k, r in enumerate(rs):
        n = 0
        for l in r.lines("@ST"): n += 1; ctx.validated += int(l.split(" ")[1]); ctx.count("boundaries", int(l.split(" ")[1]))
        if n != len(recs[k::nproc]): raise ToolError("Text looked at %d of %d texts" % (n, len(recs[k::nproc])))
        for l in r.lines("@MIS"):
            i, nn, t = l.split(" ", 2)
            runs = texts[k + nproc * (int(i) - 1)][0]
            ctx.problem("POS", "boundary %s: %s" % (nn, t), text=[[c, m] for c, m in runs], boundary=int(nn))
    ctx.count("texts", len(texts))
    for i in (7, 900, len(texts) - 3): ctx.sample(text=[[c, m] for c, m in texts[i][0]][:20], boundary=texts[i][1][-1], recorded=recs[i]["rec"][-1])
    return finish(ctx, "model_checking", assumptions=["texts up to %d characters over a, newline, é, 𝄞, CR, TAB exhaustively; longer ones sampled, with up to 65538 characters" % L])
