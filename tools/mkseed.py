#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: makes /verif/seeded/<id>/ from edits and a demonstration, and confirms each in a
scratch copy of /repo: applies, builds, tests pass, demo.sh succeeds without and fails with the patch.
SPEC.py defines SEEDS: list of dict(id, property, edits=[(file, old, new)], files={name: text}, demo, needs, breaks)."""
import os, sys, subprocess, shutil, json, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
LIBDEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
rustc --edition 2021 -o "$t/demo" "$d/demo.rs" --extern telda2=target/debug/libtelda2.rlib -L dependency=target/debug/deps 2> "$t/log" || { cat "$t/log"; exit 3; }
timeout 60 "$t/demo"
'''
TOOLDEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
B=$PWD/target/debug
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
cd "$t" || exit 3
fail() { echo "$1"; exit 1; }
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
spec = runpy.run_path(sys.argv[1])["SEEDS"]
if len(sys.argv) > 2: spec = [s for s in spec if s["id"] in sys.argv[2:]]
if not os.path.isdir(W + "/repo"):
    os.makedirs(W, exist_ok=True); sh(f"cp -a /repo {W}/repo")
R = W + "/repo"
def git(c): return sh("git -C %s %s" % (R, c))
git("fetch -q /repo HEAD"); git("checkout -qf FETCH_HEAD"); git("checkout -q -- .")
head = sh("git -C /repo rev-parse HEAD").stdout.strip(); assert git("rev-parse HEAD").stdout.strip() == head
env = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")
def build(test):
    r = sh("cargo build --workspace --offline 2>&1 && cargo test --workspace --no-run --offline 2>&1" + (" && cargo test --workspace --offline 2>&1" if test else ""), cwd=R, env=env)
    return r
ok = 0
for s in spec:
    d = f"{V}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    demo = s.get("demo")
    if demo is None: demo = LIBDEMO
    elif not demo.startswith("#!"): demo = TOOLDEMO + demo
    open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
    for n, t in s.get("files", {}).items(): open(f"{d}/{n}", "wb").write(t if isinstance(t, bytes) else t.encode())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    git("checkout -q -- .")
    build(False)
    # the demo runs from a copy elsewhere
    c = W + "/demo"; shutil.rmtree(c, ignore_errors=True); shutil.copytree(d, c); os.remove(c + "/meta.json")
    r0 = sh(f"bash {c}/demo.sh", cwd=R)
    bad = None
    for f, a, b in s["edits"]:
        t = open(f"{R}/{f}").read()
        if t.count(a) != 1: bad = f"{f}: {t.count(a)} matches of {a!r}"; break
        open(f"{R}/{f}", "w").write(t.replace(a, b))
    if not bad:
        p = git("diff").stdout; open(d + "/patch.diff", "w").write(p)
        b = build(True)
        if b.returncode: bad = "build/test: " + b.stdout[-1500:]
        else:
            r1 = sh(f"bash {c}/demo.sh", cwd=R)
            if r0.returncode or not r1.returncode or r1.returncode == 3: bad = f"demo: clean {r0.returncode} patched {r1.returncode}\n{r0.stdout[-600:]}{r0.stderr[-600:]}\n---\n{r1.stdout[-600:]}{r1.stderr[-600:]}"
            # lines removed must be from the original repository
            base = "bff8882"
            for f in {e[0] for e in s["edits"]}:
                own = sh(f"git -C /repo blame -s -l {base}..HEAD -- {f}").stdout.splitlines()
                orig = [l.split(") ", 1)[1] if ") " in l else "" for l in own if l.startswith("^")]
                dl = [l[1:] for l in sh(f"git -C {R} diff -- {f}").stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
                if dl and not any(x in orig for x in dl): print("   note: no removed line of", f, "is original:", dl)
    git("checkout -q -- .")
    if bad: print(s["id"], "NOT CONFIRMED:", bad); shutil.rmtree(d)
    else: ok += 1; print(s["id"], "confirmed")
print(ok, "of", len(spec))
