"""Locating and building the code under test."""
import os, subprocess, hashlib, shutil, sys, json, time

REPO = os.environ.get("PEG_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("PEG_WORK", os.path.join(VERIF, "work"))
NCPU = min(8, os.cpu_count() or 4)

class ToolError(Exception):
    """The machinery itself failed: exit 2, never a verdict."""

def env():
    e = {k: v for k, v in os.environ.items() if k not in ("TRYBUILD", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET")}
    e.update(HOME=e.get("HOME", "/root"), RUSTUP_TOOLCHAIN="1.68.0", CARGO_REGISTRIES_CRATES_IO_PROTOCOL="sparse",
             CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", LANG="C.UTF-8")
    return e

def src_hash(extra=""):
    """Content hash of everything in /repo that can influence a build of peg."""
    h = hashlib.sha256(extra.encode())
    for d in ("", "src", "peg-macros", "peg-runtime"):
        top = os.path.join(REPO, d)
        if d == "":
            files = [f for f in os.listdir(top) if os.path.isfile(os.path.join(top, f)) and f.endswith((".toml", ".lock", ".rs"))]
            files = [os.path.join(top, f) for f in files]
        else:
            files = [os.path.join(r, f) for r, _, fs in os.walk(top) for f in fs if "/target" not in r and "/tests" not in r]
        for f in sorted(files):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def fresh_dir(path):
    """A work directory tied to the current content of /repo; emptied when that changes."""
    stamp = os.path.join(path, ".stamp")
    want = src_hash()
    if os.path.exists(path) and (not os.path.exists(stamp) or open(stamp).read() != want):
        shutil.rmtree(path)
    os.makedirs(path, exist_ok=True)
    open(stamp, "w").write(want)
    return path

def run(cmd, cwd=None, timeout=600, inp=None, extra_env=None, mem_gb=None):
    e = env()
    if extra_env: e.update(extra_env)
    pre = None
    if mem_gb:
        import resource
        lim = int(mem_gb * (1 << 30))
        pre = lambda: resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    return subprocess.run(cmd, cwd=cwd, env=e, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, preexec_fn=pre)

LOCK = """# This file is automatically @generated by Cargo.
version = 3
"""

def cargo_project(path, name, features=(), extra_toml=""):
    """Write a stand-alone crate that depends on the working tree's peg."""
    os.makedirs(os.path.join(path, "src", "bin"), exist_ok=True)
    feats = ", features = [%s]" % ", ".join('"%s"' % f for f in features) if features else ""
    toml = """[package]
name = "%s"
version = "0.0.0"
edition = "2021"
[dependencies]
peg = { path = "%s"%s }
[workspace]
[profile.dev]
opt-level = 0
debug = 0
incremental = false
overflow-checks = true
%s""" % (name, REPO, feats, extra_toml)
    put(os.path.join(path, "Cargo.toml"), toml)
    lock = os.path.join(path, "Cargo.lock")
    src = os.path.join(VERIF, "harness", "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists(src):
        put(lock, open(src).read().replace('name = "HARNESS"', 'name = "%s"' % name))

def put(path, text):
    if os.path.exists(path) and open(path).read() == text: return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)

def peg_builds(path):
    """Does the code under test itself compile?  (A tree that does not is not judged.)"""
    r = run(["cargo", "build", "--offline", "-q", "-p", "peg"], cwd=path, timeout=600)
    if r.returncode != 0:
        raise ToolError("the tree under test does not build:\n" + r.stderr.decode()[-3000:])
