"""Running TLC."""
import os, re, subprocess, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
from repo import *

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

TOTAL = {"states": 0, "transitions": 0, "runs": 0}

class Tlc:
    """Result of one TLC run."""
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        self.msgs = [l[5:] for l in out.splitlines() if l.startswith('"@@@ ')]
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.states = int(m[-1][1]) if m else 0
        self.generated = int(m[-1][0]) if m else 0
        TOTAL["states"] += self.states; TOTAL["transitions"] += self.generated; TOTAL["runs"] += 1

    def lines(self, tag):
        """PrintT(<<tag, ...>>) or PrintT(tag \\o text) lines."""
        out = []
        for l in self.out.splitlines():
            if l.startswith('"' + tag + " "): out.append(l[len(tag) + 2:-1].replace('\\"', '"').replace("\\\\", "\\"))
        return out

def tlc(module, cfg, work, workers=1, timeout=600, xss="512m", xmx="3g", extra=(), defs=None, stack=True):
    """module: name in /verif/spec; cfg: text; work: scratch directory of this run."""
    os.makedirs(work, exist_ok=True)
    cfgp = os.path.join(work, module + ".cfg")
    open(cfgp, "w").write(cfg)
    e = env()
    if defs: e.update(defs)
    cmd = ["java", "-Xss" + xss, "-Xmx" + xmx, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           "-DTLA-Library=" + os.path.join(VERIF, "spec"), "-cp", JARS, "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(work, "meta"),
           "-workers", str(workers), "-noGenerateSpecTE", "-lncheck", "final"] + list(extra) + [os.path.join(VERIF, "spec", module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(os.path.join(work, "meta"), ignore_errors=True)
    out = p.stdout.decode(errors="replace")
    return Tlc(p.returncode, out)

def tlc_ok(r, what):
    if r.rc != 0 or "Model checking completed. No error" not in r.out and "Finished in" not in r.out:
        raise ToolError("TLC failed on %s (rc %d):\n%s" % (what, r.rc, r.out[-3000:]))
    return r
