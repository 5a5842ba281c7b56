#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seed_defs.py, and validates each bug in a scratch copy of /repo.
   seed.py gen [ids..]       write patch.diff, demo.sh, main.rs, Cargo.lock, meta.json
   seed.py validate [ids..]  scratch copy: builds, stable tests pass, demo fails with / passes without
   seed.py catch [ids..]     apply to /repo, run the property's quick check, undo"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed_defs import BUGS
import seed_defs2, seed_defs3
V = "/verif"; REPO = "/repo"
MAIN = """#![allow(unused_imports)]
use baa::*;
fn main() {
%s    println!("ok");
}
"""
DEMO = """#!/bin/bash
# Exit 0: the library behaves; non-zero: the bug shows. Builds in a scratch directory that it removes.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/baa-demo.XXXXXX)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/Cargo.lock.txt" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
baa = { path = "$repo", features = [@FEATURES@] }
num-bigint = "0.4"
fraction = "0.11"
serde_json = "1"
bincode = "1.3"
EOT
cd "$work" || exit 1
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
cargo run -q --offline @PROFILE@
"""
def sel(ids): return [b for b in BUGS if not ids or b["id"] in ids]
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def gen(ids):
    lock = open(f"{V}/harness/Cargo.lock").read().replace('name = "baa-conform"', 'name = "demo"').replace(' "num-bigint",\n "serde",\n "serde_json",\n]', ' "num-bigint",\n "serde_json",\n]')
    for b in sel(ids):
        d = f"{V}/seeded/{b['id']}"; os.makedirs(d, exist_ok=True)
        t = tempfile.mkdtemp(prefix="seed"); 
        sh(f"git -C {REPO} archive HEAD | tar x -C {t}; cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
        for f, o, n in b["edits"]:
            p = f"{t}/{f}"; s = open(p).read()
            assert s.count(o) == 1, (b["id"], f, s.count(o), o)
            open(p, "w").write(s.replace(o, n))
        diff = sh(f"git -C {t} diff").stdout
        open(f"{d}/patch.diff", "w").write(diff)
        shutil.rmtree(t)
        open(f"{d}/main.rs", "w").write(MAIN % b["demo"].lstrip("\n"))
        open(f"{d}/Cargo.lock.txt", "w").write(lock)
        open(f"{d}/demo.sh", "w").write(DEMO.replace("@FEATURES@", ", ".join(f'"{x}"' for x in b["features"])).replace("@PROFILE@", "--release" if b["profile"] == "release" else ""))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
def validate(ids):
    W = "/tmp/seedrepo"; shutil.rmtree(W, ignore_errors=True)
    sh(f"cp -a {REPO} {W}")
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_passing", []) or [])
    # the build/test scripts are tied to /repo: use the same commands in the scratch copy
    env = dict(os.environ, CARGO_TARGET_DIR=f"{W}/target", PROPTEST_RNG_SEED="20241024", RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true")
    for b in sel(ids):
        d = f"{V}/seeded/{b['id']}"
        sh(f"git -C {W} checkout -q -- .")
        clean = sh(f"bash {d}/demo.sh", cwd=W).returncode
        ap = sh(f"git -C {W} apply {d}/patch.diff")
        r1 = sh("rm -rf target/*/.fingerprint/baa-*; cargo test --offline --features bigint,serde1,fraction1 2>&1 | grep -E '^(error|test .*FAILED|test result|warning: unused)'", cwd=W, env=env)
        r2 = sh("cargo test --release --offline --features bigint,serde1,fraction1 2>&1 | grep -E '^(error|test .*FAILED|test result)'", cwd=W, env=env)
        bad = sh(f"bash {d}/demo.sh", cwd=W)
        ok = clean == 0 and ap.returncode == 0 and bad.returncode != 0 and "FAILED" not in r1.stdout + r2.stdout and "error" not in r1.stdout + r2.stdout
        print("OK  " if ok else "BAD ", b["id"], "clean", clean, "apply", ap.returncode, "patched", bad.returncode)
        if not ok: print(r1.stdout, r2.stdout, bad.stderr[-800:], ap.stderr)
        else: print("      ", [l for l in bad.stderr.splitlines() if l.strip()][-3:][0][:150])
        sys.stdout.flush()
    sh(f"rm -rf {W}")
def catch(ids, mode="--quick"):
    res = {}
    for b in sel(ids):
        d = f"{V}/seeded/{b['id']}"
        assert not sh(f"git -C {REPO} status --porcelain").stdout.strip()
        assert sh(f"git -C {REPO} apply {d}/patch.diff").returncode == 0
        try:
            r = sh(f"VERIF_SEED=1 python3 check.py {b['prop']} {mode}", cwd=V)
        finally:
            sh(f"git -C {REPO} checkout -- .")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        res[b["id"]] = (r.returncode, v[:1])
        print("CAUGHT" if r.returncode == 1 and v else "MISSED", b["id"], r.returncode, v[:1], r.stderr[-300:] if r.returncode not in (0, 1) else "")
        sys.stdout.flush()
{"gen": gen, "validate": validate, "catch": catch}[sys.argv[1]](sys.argv[2:])
