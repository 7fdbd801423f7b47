#!/usr/bin/env python3
"""plant.py FILE.py [ID...]: FILE.py defines BUGS, a list of dicts
  id, property, needs, breaks, edits=[(path, old, new)...], and rs= / sh= / py= (the demonstration).
For each: makes the change in a scratch copy of /repo, builds, runs the tests, runs the demonstration with and
without the change, and, if everything fits, writes /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys, tempfile, runpy

SCR = "/tmp/scr"
OUT = "/verif/seeded"
HEAD = """#!/bin/bash
# Exit 0 if the behaviour holds, 1 if it does not. Run with the repository as the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" LANG=C.UTF-8
export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset CHANOMARC
mkdir -p "$tmp/home" "$tmp/cwd"
"""
RS = HEAD + """mkdir -p "$tmp/crate/src"
cp "$here/main.rs" "$tmp/crate/src/main.rs"
cat > "$tmp/crate/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
chanoma = { path = "$repo" }
log = "0.4"
serde_yaml = "0.8"
[workspace]
EOF
(cd "$tmp/crate" && cargo build -q --offline --target-dir "$tmp/target") || exit 3
cd "$tmp/cwd" && HOME="$tmp/home" timeout 120 "$tmp/target/debug/demo"
"""
SH = HEAD + """cargo build -q --offline --bins --target-dir "$tmp/target" || exit 3
bin="$tmp/target/debug"
cd "$tmp/cwd" || exit 3
export HOME="$tmp/home"
"""
PY = HEAD + """export PYO3_PYTHON=/opt/vp/pyvenv/bin/python3 PYTHONDONTWRITEBYTECODE=1
(cd "$repo/bindings/python3" && cargo build -q --offline --features pyo3/extension-module --target-dir "$tmp/target") || exit 3
mkdir -p "$tmp/path/chanoma"
cp "$repo/bindings/python3/chanoma/"*.py "$tmp/path/chanoma/" && cp "$tmp/target/debug/libchanoma_py.so" "$tmp/path/chanoma/chanoma.so" || exit 3
cd "$tmp/cwd" && HOME="$tmp/home" PYTHONPATH="$tmp/path" timeout 120 "$PYO3_PYTHON" "$here/demo.py"
"""

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def reset():
    sh(f"git -C {SCR} checkout -q -- . && git -C {SCR} clean -fdq")

def setup():
    if not os.path.isdir(SCR):
        sh(f"cp -a /repo {SCR}")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    r = sh(f"git -C {SCR} fetch -q /repo HEAD && git -C {SCR} checkout -q -f {head}")
    assert sh(f"git -C {SCR} rev-parse HEAD").stdout.strip() == head, r.stdout
    reset()
    d = "/tmp/scr-vp"
    os.makedirs(d, exist_ok=True)
    for f in ("build.sh", "test.sh", "env.sh"):
        t = open(f"/opt/vp/{f}").read().replace("/repo", SCR).replace("/opt/vp/env.sh", f"{d}/env.sh")
        open(f"{d}/{f}", "w").write(t)

def demo(d):
    r = sh(f"timeout 300 bash {d}/demo.sh", cwd=SCR)
    return r.returncode, r.stdout

def one(b):
    reset()
    d = tempfile.mkdtemp(prefix="plant-")
    t = os.path.join(d, b["id"])
    os.makedirs(t)
    for path, old, new in b["edits"]:
        p = f"{SCR}/{path}"
        s = open(p).read()
        if s.count(old) != 1:
            return f"edit of {path} matches {s.count(old)} times: {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
    open(f"{t}/patch.diff", "w").write(sh(f"git -C {SCR} diff").stdout)
    if "rs" in b:
        open(f"{t}/main.rs", "w").write(b["rs"].lstrip("\n")); open(f"{t}/demo.sh", "w").write(RS)
    elif "py" in b:
        open(f"{t}/demo.py", "w").write(b["py"].lstrip("\n")); open(f"{t}/demo.sh", "w").write(PY)
    else:
        open(f"{t}/demo.sh", "w").write(SH + b["sh"].lstrip("\n"))
    os.chmod(f"{t}/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(f"{t}/meta.json", "w"), indent=1, ensure_ascii=False)
    r = sh("bash /tmp/scr-vp/build.sh")
    if r.returncode: return "does not build:\n" + r.stdout[-1500:]
    sh("bash /tmp/scr-vp/test.sh /tmp/scr-vp/out.json")
    o = json.load(open("/tmp/scr-vp/out.json"))
    miss = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(o["passed"])
    if miss: return f"tests fail: {sorted(miss)[:4]}"
    c, out = demo(t)
    if c == 0 or c == 3: return f"demo exits {c} with the change:\n{out[-1500:]}"
    with_out = out
    reset()
    sh("bash /tmp/scr-vp/build.sh")
    c, out = demo(t)
    if c != 0: return f"demo exits {c} without the change:\n{out[-1500:]}"
    dst = f"{OUT}/{b['id']}"
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(t, dst)
    shutil.rmtree(d)
    return "kept; with the change: " + with_out.strip()[-200:].replace("\n", " | ")

def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    setup()
    for b in bugs:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]: continue
        print(b["id"], one(b), flush=True)
    reset()

main()
