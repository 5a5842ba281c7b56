#!/usr/bin/env python3
"""Systematic small edits of /repo (in scratch copies): which of those that the existing tests accept do the drivers notice?
   mutate.py K OUT.json [FILE-SUBSTRING] [every n-th] [offset]
For every surviving edit the traces of all drivers are compared with those of the unchanged tree; OUT lists
killed (by tests), noticed (driver whose trace differs) and unnoticed edits."""
import random, concurrent.futures as cf, hashlib, json, os, queue, re, shutil, subprocess, sys, resource
ROOT = "/tmp/mut"
sys.path.insert(0, "/verif")
import check
K, OUT = int(sys.argv[1]), sys.argv[2]
SUB = sys.argv[3] if len(sys.argv) > 3 else ""
NTH = int(sys.argv[4]) if len(sys.argv) > 4 else 1
OFF = int(sys.argv[5]) if len(sys.argv) > 5 else 0
DRIVERS = []
for p, c in check.P.items():
    for d, spec, kind, nq, nt in c["runs"]:
        DRIVERS.append((p, d, nq))
OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
       (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" % ", [" / "]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"<<", [">>"]), (r">>", ["<<"]), (r" & ", [" | ", " ^ "]), (r" \| ", [" & ", " ^ "]), (r" \^ ", [" | "]), (r"\+= ", ["-= "]), (r"-= ", ["+= "]), (r"\|= ", ["&= ", "^= "]), (r"&= ", ["|= "]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])([2-9]|[1-9]\d+)(?![\w.])", ["INC", "DEC"]),
       (r"if !", ["if "]), (r"\bif (?!let|!)", ["if !"]), (r"\.rev\(\)", [""]), (r"\bWord::BITS\b", ["(Word::BITS - 1)"]), (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
       (r"\.all\(", [".any("]), (r"\.any\(", [".all("]), (r"\.\.=", [".."]), (r"\.\.(?![=.])", ["..="]), (r"\bas u64\b", ["as u8 as u64", "as u32 as u64", "as i64 as u64"]), (r"\bas usize\b", ["as u8 as usize", "as u16 as usize"]),
       (r"\bas WidthInt\b", ["as u8 as WidthInt", "as u16 as WidthInt"]), (r"\bas i64\b", ["as i32 as i64"]), (r"\bas u8\b", ["as i8 as u8"]), (r"\.is_some\(\)", [".is_none()"]), (r"\bSome\(", ["None::<(_)>.or(Some("]), (r"u64::MAX", ["(u64::MAX - 1)", "(u64::MAX >> 1)"]), (r"Word::MAX", ["(Word::MAX >> 1)"]), (r"\.is_empty\(\)", [".len() == 1"])]


def mutants():
    out = []
    for base, _, fs in os.walk("/repo/src"):
        for f in sorted(fs):
            p = os.path.join(base, f)
            if not f.endswith(".rs") or SUB not in p:
                continue
            rel = os.path.relpath(p, "/repo")
            lines = open(p).read().split("\n")
            skip = False
            for i, l in enumerate(lines):
                if re.match(r"(pub(\(crate\))? )?mod tests?\b", l):
                    break
                s = l.strip()
                if not s or s.startswith(("//", "#", "use ", "pub use", "mod ")) or s.startswith(("do_test", "assert")) or re.match(r"(pub(\(crate\))? )?(fn|impl|trait|struct|enum) ", s):
                    continue
                for pat, reps in OPS:
                    for m in re.finditer(pat, l):
                        if l[:m.start()].count('"') % 2 or "//" in l[:m.start()]:
                            continue
                        for r in reps:
                            if r in ("INC", "DEC"):
                                r = str(int(m.group(0)) + (1 if r == "INC" else -1))
                            out.append((rel, i, l, l[:m.start()] + r + l[m.end():]))
                if s.endswith(";") and not s.startswith(("let ", "return", "type ", "const ", "pub const", "}")):
                    out.append((rel, i, l, ""))
    return out


def lim(): resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def run(cmd, cwd, env, t):
    try:
        return subprocess.run("exec " + cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, "", "timeout")


def lab(i):
    d = f"{ROOT}/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(f"cp -a /repo {d}/repo; mkdir {d}/verif; cp -a /verif/check.py /verif/spec /verif/known_findings.json {d}/verif; mkdir {d}/verif/harness; cp -a /verif/harness/Cargo.* /verif/harness/src {d}/verif/harness; sed -i 's#path = \"/repo\"#path = \"{d}/repo\"#' {d}/verif/harness/Cargo.toml; git -C {d}/repo checkout -q -- .", shell=True)
    return d


def traces(d, base=None, loose=()):
    """hashes of the traces of all drivers; with base: the first driver that differs is enough"""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", CARGO_BUILD_JOBS="2")
    res = {}
    for prof in ("release", "debug"):
        e = dict(env, CARGO_TARGET_DIR=f"{d}/verif/harness/target/b-{prof}")
        r = run("cargo build --offline --quiet" + (" --release" if prof == "release" else ""), f"{d}/verif/harness", e, 300)
        if r.returncode:
            return None
    for p, drv, n in DRIVERS:
        h = ""
        for prof in ("release", "debug"):
            o = f"{d}/out"
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            b = f"{d}/verif/harness/target/b-{prof}/{prof}/baa-conform"
            try:
                rc = subprocess.run([b, drv, str(n), "1", o], capture_output=True, timeout=120, preexec_fn=lim).returncode
            except subprocess.TimeoutExpired:
                rc = -1
            t = open(f"{o}/trace.ndjson").read()
            # what a conversion picks as default is not determined
            t = re.sub(r'\{"op":"entries".*?("o":|$)', r"\1", t)
            h += hashlib.md5(t.encode()).hexdigest() + str(rc)
        res[drv] = h
        if base and drv not in loose and h != base[drv]:
            return [drv]
    if base:
        return []
    return res


def main():
    ms = mutants()
    random.Random(7).shuffle(ms)
    ms = ms[OFF::NTH]
    print(len(ms), "edits", flush=True)
    labs = queue.Queue()
    with cf.ThreadPoolExecutor(K) as ex:
        for d in ex.map(lab, range(K)):
            labs.put(d)
        d0 = labs.get()
        base = traces(d0)
        again = traces(d0)
        loose = [k for k in base if base[k] != again[k]]
        print("not reproducible:", loose, flush=True)
        labs.put(d0)

        def one(m):
            rel, i, old, new = m
            d = labs.get()
            p = f"{d}/repo/{rel}"
            src = open(p).read()
            try:
                ls = src.split("\n")
                assert ls[i] == old
                ls[i] = new
                open(p, "w").write("\n".join(ls))
                env = dict(os.environ, CARGO_TARGET_DIR=f"{d}/repo/target", PROPTEST_RNG_SEED="20241024", RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", CARGO_BUILD_JOBS="2", PROPTEST_DISABLE_FAILURE_PERSISTENCE="1")
                feat = "--features bigint,serde1,fraction1"
                r = run(f"cargo test --lib --no-run --offline {feat}", f"{d}/repo", env, 300)
                if r.returncode: return m, "nocompile", None
                r = run(f"timeout -k 5 60 cargo test --offline {feat} -- --test-threads 4", f"{d}/repo", env, 200)
                if r.returncode: return m, "killed", None
                r = run(f"timeout -k 5 120 cargo test --release --offline {feat} -- --test-threads 4", f"{d}/repo", env, 400)
                if r.returncode: return m, "killed", None
                t = traces(d, base, loose)
                if t is None: return m, "noharness", None
                if not t:
                    # some drivers are not reproducible: ask the checks themselves
                    for prop in (["C16", "C17", "C18", "C19", "C20"] if "array" in rel else ["C07", "C20"]) + ["C21"]:
                        r = run(f"python3 check.py {prop} --quick --seed 1", f"{d}/verif", dict(os.environ), 600)
                        if r.returncode == 1:
                            t = ["check " + prop]
                            break
                return m, "survived", t
            except Exception as e:
                return m, "error " + repr(e), None
            finally:
                open(p, "w").write(src)
                subprocess.run("git checkout -q -- .; git clean -fdq", shell=True, cwd=f"{d}/repo")
                labs.put(d)
        out, n = [], 0
        for f in cf.as_completed([ex.submit(one, m) for m in ms]):
            m, st, who = f.result()
            out.append(dict(file=m[0], line=m[1] + 1, old=m[2].strip(), new=m[3].strip(), status=st, noticed=who))
            n += 1
            if st == "survived" and not who:
                print("UNNOTICED", m[0], m[1] + 1, "|", m[2].strip(), "=>", m[3].strip(), flush=True)
            if n % 50 == 0:
                print(n, flush=True)
                json.dump(out, open(OUT, "w"), indent=0)
        json.dump(out, open(OUT, "w"), indent=0)
    from collections import Counter
    print(Counter(("unnoticed" if x["status"] == "survived" and not x["noticed"] else x["status"]) for x in out))
    shutil.rmtree(ROOT, ignore_errors=True)


main()
