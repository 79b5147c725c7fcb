"""Compiling generated grammars against the working tree and running inputs through them."""
import os, json, subprocess, re, shutil, sys, time
from concurrent.futures import ThreadPoolExecutor
from repo import *
from gram import Render

INTY = {"str": "str", "u8": "[u8]", "tok": "[Tok]", "rec": "Rec"}

class Unit:
    """One grammar in the harness."""
    def __init__(self, g, entries, src=None, intype=None):
        self.g, self.entries = g, entries
        self.src = src or Render(g.itype, getattr(g, "rng", None), getattr(g, "noise", 0.0), getattr(g, "full", False)).grammar(g, intype or INTY[g.itype])

    def module(self, i):
        return "mod m%d { use super::sup::*;\n%s\npub fn run(e: usize, inp: &str) -> String { match e {\n%s\n_ => panic!() } }\n}\n" % (i, self.src, self.dispatch(i))

    def dispatch(self, i):
        g = self.g
        out = []
        ga = "".join(", %d" % v for _, v in g.gargs)
        for j, en in enumerate(self.entries):
            fn, args = en[0], en[2] if len(en) > 2 else ""
            path = "%s::%s" % (g.name, fn)
            if g.itype == "str": s = "out(%s(inp%s%s))" % (path, ga, args)
            elif g.itype == "u8": s = "out(%s(inp.as_bytes()%s%s))" % (path, ga, args)
            elif g.itype == "tok": s = "{ let t: Vec<Tok> = inp.chars().map(tok_of).collect(); out(%s(&t[..]%s%s)) }" % (path, ga, args)
            elif g.itype == "rec": s = "{ let r = Rec::new(inp); take_log(); let o = out(%s(&r%s%s)); format!(\"{}\\u{1d}{}\", o, take_log().join(\"\\u{1f}\")) }" % (path, ga, args)
            out.append("%d => %s," % (j, s))
        return "\n".join(out)

class CompileFailure(Exception): pass

class Harness:
    def __init__(self, name, units, features=(), nbins=NCPU):
        self.dir = fresh_dir(os.path.join(WORK, name))
        self.units, self.features = units, features
        self.nbins = min(nbins, max(1, len(units)))
        self.rejected = {}      # unit index -> list of compiler messages
        self.bin_of = {}
        self.main = "run_main"

    def write(self):
        cargo_project(self.dir, "h", self.features)
        put(os.path.join(self.dir, "src", "sup.rs"), open(os.path.join(VERIF, "harness", "sup.rs")).read())
        b = os.path.join(self.dir, "src", "bin")
        live = [i for i in range(len(self.units)) if i not in self.rejected]
        for k in range(self.nbins):
            mine = live[k::self.nbins]
            for i in mine: self.bin_of[i] = k
            text = "#![allow(warnings)]\n#[path=\"../sup.rs\"] mod sup;\n"
            text += "".join(self.units[i].module(i) for i in mine)
            text += "fn dispatch(g: usize, e: usize, inp: &str) -> String { use sup::*; match g {\n" + "\n".join("%d => m%d::run(e, inp)," % (i, i) for i in mine) + "\n_ => panic!() } }\nfn main() { sup::%s(dispatch) }\n" % self.main
            put(os.path.join(b, "c%d.rs" % k), text)
        for f in os.listdir(b):
            if int(f[1:-3]) >= self.nbins: os.remove(os.path.join(b, f))

    def build(self, rounds=4):
        self.write()
        peg_builds(self.dir)
        for r in range(rounds):
            p = run(["cargo", "build", "--offline", "--message-format=json"], cwd=self.dir, timeout=800)
            if p.returncode == 0: return
            self.collect(p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"))
            self.write()
        raise ToolError("harness does not compile: " + p.stderr.decode()[-2000:])

    def collect(self, out, err):
        found = False
        index = {}
        for line in out.splitlines():
            try: m = json.loads(line)
            except ValueError: continue
            m = m.get("message") if m.get("reason") == "compiler-message" else None
            if not m or m.get("level") not in ("error", "error: internal compiler error"): continue
            for sp in m.get("spans", []):
                while sp.get("expansion") and not re.search(r"c\d+\.rs$", sp["file_name"]): sp = sp["expansion"]["span"]
                mm = re.search(r"c(\d+)\.rs$", sp["file_name"])
                if not mm: continue
                k = int(mm.group(1))
                if k not in index:
                    index[k] = []
                    for ln, t in enumerate(open(os.path.join(self.dir, "src", "bin", "c%d.rs" % k)), 1):
                        q = re.match(r"mod m(\d+) \{", t)
                        if q: index[k].append((ln, int(q.group(1))))
                own = [u for ln, u in index[k] if ln <= sp["line_start"]]
                if own:
                    self.rejected.setdefault(own[-1], []).append(m["message"]); found = True
        if not found:
            raise ToolError("harness does not compile, cause not attributable:\n" + err[-3000:])

    # cases: list of (unit index, entry index, input string)
    def run(self, cases, limit=5, mem_gb=6, max_restarts=12):
        """Returns for every case (kind, fields, trace lines): kind O value | E ... | P msg | CRASH | HANG | SKIP"""
        res = [None] * len(cases)
        per = {}
        for ci, (u, e, s) in enumerate(cases):
            if u in self.rejected: res[ci] = ("SKIP", [], []); continue
            per.setdefault(self.bin_of[u], []).append(ci)
        def work(k):
            ids = per[k]
            path = os.path.join(self.dir, "cases%d.txt" % k)
            open(path, "w").write("".join("%d\t%d\t%s\n" % (cases[ci][0], cases[ci][1], cases[ci][2].encode().hex()) for ci in ids))
            exe = os.path.join(self.dir, "target", "debug", "c%d" % k)
            start, restarts = 0, 0
            while start < len(ids):
                try: p = run([exe, path, str(start), str(limit)], timeout=600, mem_gb=mem_gb)
                except subprocess.TimeoutExpired: raise ToolError("case runner timed out")
                buf = []
                last = start - 1
                for line in p.stdout.decode(errors="replace").split("\n"):
                    if line.startswith("\x1e"):
                        f = line[1:].split("\t")
                        last = int(f[0])
                        res[ids[last]] = (f[1], f[2:], buf)
                        buf = []
                    elif line: buf.append(line)
                if last + 1 >= len(ids): break
                # the case after the last reported one never came back
                kind = "HANG" if p.returncode == 97 else "CRASH"
                res[ids[last + 1]] = (kind, [str(p.returncode)], buf)
                start = last + 2
                restarts += 1
                if restarts > max_restarts:
                    for j in range(start, len(ids)): res[ids[j]] = ("SKIP", [], [])
                    break
        with ThreadPoolExecutor(NCPU) as ex: list(ex.map(work, per))
        return res

def outcome(r, top=0):
    """Outcome record for the specification (JSON)."""
    kind, f, _ = r
    if kind == "O":
        v = f[0] if f else ""
        if top:
            m = re.fullmatch(r"top\((.*),@(\d+)\)", v, re.S)
            return {"k": "O", "v": m.group(1), "e": int(m.group(2))} if m else {"k": "O", "v": v, "e": -1}
        return {"k": "O", "v": v}
    if kind == "E":
        return {"k": "E", "off": int(f[0]), "line": int(f[1]), "col": int(f[2].rstrip("!")), "lc": 0 if f[2].endswith("!") else 1,
                "disp": int(f[3]), "toks": [t for t in f[4].split("\x1f") if t != ""] if len(f) > 4 else []}
    return {"k": kind, "msg": "\t".join(f)}

def split_log(r):
    """(result without log, log) of a run over the recording input type.  Calls whose number is
    free (start, is_eof, position_repr) are dropped."""
    kind, f, x = r
    if kind not in "OE" or not f: return r, []
    last, _, log = f[-1].partition("\x1d")
    return (kind, f[:-1] + [last], x), [e for e in log.split("\x1f") if e and e[0] not in "FR"]
