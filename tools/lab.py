#!/usr/bin/env python3
"""Scratch copies of /verif and /repo in which bugs and refactorings are tried, so that /repo stays as it is.
   lab.py catch K [ids..]            every seeded bug's own check (or those named), in K copies at once
   lab.py quiet K SEEDS [props..]    quick checks on the unchanged tree, e.g. SEEDS = 1-5
   lab.py patches K DIR [props..]    every DIR/*.diff (a behaviour preserving edit): all properties have to stay quiet
   lab.py thorough K [props..]
   lab.py cross K P,P,.. [ids..]      the quick checks of other properties on the seeded bugs: which of them alarm as well
   """
import concurrent.futures as cf, glob, json, os, queue, shutil, subprocess, sys, time
ROOT = "/tmp/lab"


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def lab(i):
    d = f"{ROOT}/{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"cp -a /verif {d}/verif && cp -a /repo {d}/repo")
    t = f"{d}/verif/harness/Cargo.toml"
    s = open(t).read().replace('path = "/repo"', f'path = "{d}/repo"')
    open(t, "w").write(s)
    sh(f"git -C {d}/repo checkout -q -- .")
    return d


def check(d, prop, seed=1, mode="--quick"):
    t = time.time()
    r = sh(f"python3 check.py {prop} {mode} --seed {seed}", cwd=f"{d}/verif")
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    what = [l for l in r.stdout.splitlines() if l.startswith("rejected")]
    return r.returncode, v, what, r.stderr[-1500:], time.time() - t


def main():
    mode, k, rest = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    props = [f"C{i:02}" for i in range(1, 99) if f'"C{i:02}": dict(runs' in open("/verif/check.py").read()]
    jobs = []
    if mode == "catch":
        ids = rest or sorted(os.listdir("/verif/seeded"))
        jobs = [(json.load(open(f"/verif/seeded/{i}/meta.json"))["property"], 1, f"/verif/seeded/{i}/patch.diff", i, "--quick") for i in ids]
    elif mode == "quiet":
        a, b = (rest[0].split("-") + rest[0].split("-"))[:2] if "-" in rest[0] else (rest[0], rest[0])
        jobs = [(p, s, None, f"{p}/{s}", "--quick") for s in range(int(a), int(b) + 1) for p in rest[1:] or props]
    elif mode == "cross":
        for i in rest[1:] or sorted(os.listdir("/verif/seeded")):
            own = json.load(open(f"/verif/seeded/{i}/meta.json"))["property"]
            jobs += [(p, 1, f"/verif/seeded/{i}/patch.diff", f"{p} on {i}", "--quick") for p in (rest[0].split(",") if rest[0] != "all" else props) if p != own]
    elif mode == "patches":
        jobs = [(p, 1, f, f"{p}/{os.path.basename(f)}", "--quick") for f in sorted(glob.glob(rest[0] + "/*.diff")) for p in rest[1:] or props]
    elif mode == "thorough":
        jobs = [(p, 1, None, f"{p}/thorough", "--thorough") for p in rest or props]
    labs = queue.Queue()
    with cf.ThreadPoolExecutor(k) as ex:
        for d in ex.map(lab, [f"{os.getpid()}-{i}" for i in range(k)]):
            labs.put(d)

        def one(j):
            prop, seed, patch, name, how = j
            d = labs.get()
            try:
                if patch:
                    ap = sh(f"git -C {d}/repo apply {patch}")
                    if ap.returncode: return j, ("apply", [], [], ap.stderr, 0)
                return j, check(d, prop, seed, how)
            finally:
                sh(f"git -C {d}/repo checkout -q -- . && git -C {d}/repo clean -fdq")
                labs.put(d)
        good = bad = 0
        for f in cf.as_completed([ex.submit(one, j) for j in jobs]):
            j, (rc, v, what, err, secs) = f.result()
            want = 1 if mode == "catch" else 0
            ok = rc == want and bool(v) == (want == 1)
            good, bad = good + ok, bad + (not ok)
            tag = ("CAUGHT" if ok else "MISSED") if want else ("quiet " if ok else "ALARM ")
            print(f"{tag} {j[3]} rc={rc} {secs:.0f}s", "" if ok and want == 0 else " ".join(what)[:200], "" if ok else err[-600:], flush=True)
    print("good", good, "bad", bad)
    for i in range(k): shutil.rmtree(f"{ROOT}/{os.getpid()}-{i}", ignore_errors=True)


main()
