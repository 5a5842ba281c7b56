#!/usr/bin/env python3
"""check.py PROPERTY [--quick|--thorough] [--seed N] | check.py --replay FILE

Builds the harness against /repo's working tree (debug and release), lets it drive the real library, and
lets TLC decide whether every recorded behaviour is one the specification in spec/ allows.  Also model checks the
specification itself, and replays behaviours generated from it.
exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CALLS, SESS = "calls", "sessions"

# property -> runs: (driver, trace specification, kind, events per batch quick, thorough), models: (module, constants quick, thorough)
BITS = [("MCBits", {"MaxW": 4}, {"MaxW": 6})]
TEXT = [("MCTextAlg", {"MaxT": 5}, {"MaxW": 12, "MaxT": 5}), ("MCTextAlg", {"HB": 4, "BB": 4, "DB": 10, "DW": 1, "MaxW": 9, "MaxT": 2}, {"WB": 6, "HB": 3, "BB": 3, "DB": 7, "MaxW": 13, "MaxT": 4})]
WORDS = BITS + [("MCWordAlg", {"WB": 2, "MaxW": 5}, {"WB": 3, "MaxW": 7})]
ARR = [("MCArrays", {}, {"IW": 2, "D": 3}), ("MCTables", {"IW": 1, "D": 3}, {"IW": 2, "D": 2})]
REP = [("MCArrayRep", {"ByteBits": b, "WordBits": w, "Size": 1}, {"ByteBits": b, "WordBits": w, "Size": t}) for b, w, t in ((2, 2, 2), (1, 1, 1), (1, 2, 3))]
P = {
    "C01": dict(runs=[("C01", "TraceCanon", SESS, 12000, 40000)], models=WORDS),
    "C02": dict(runs=[("C02", "TraceCalls", CALLS, 20000, 50000)], models=WORDS),
    "C03": dict(runs=[("C03", "TraceCalls", CALLS, 20000, 50000)], models=WORDS),
    "C04": dict(runs=[("C04", "TraceCalls", CALLS, 20000, 50000)], models=WORDS),
    "C05": dict(runs=[("C05", "TraceCalls", CALLS, 20000, 50000)], models=WORDS),
    "C06": dict(runs=[("C06", "TraceCalls", CALLS, 24000, 50000)], models=WORDS),
    "C07": dict(runs=[("C07", "TraceCoherence", SESS, 10000, 30000)], models=[("MCCoherence", {}, {})]),
    "C08": dict(runs=[("C08", "TraceCalls", CALLS, 20000, 50000)], models=BITS + TEXT),
    "C09": dict(runs=[("C09", "TraceCalls", CALLS, 16000, 40000)], models=BITS + TEXT),
    "C10": dict(runs=[("C10", "TraceCalls", CALLS, 20000, 40000)], models=BITS + TEXT),
    "C11": dict(runs=[("C11", "TraceCalls", CALLS, 20000, 50000)], models=BITS + TEXT),
    "C12": dict(runs=[("C12", "TraceCalls", CALLS, 12000, 40000)], models=BITS),
    "C13": dict(runs=[("C13", "TraceRegs", SESS, 16000, 40000)], models=[("MCRegs", {}, {})]),
    "C14": dict(runs=[("C14", "TraceSlab", SESS, 14000, 40000)], models=[("MCSlab", {}, {})]),
    "C15": dict(runs=[("C15", "TraceInterner", SESS, 14000, 40000)], models=[("MCInterner", {}, {"MaxN": 4}), ("MCBulk", {}, {"MaxI": 3, "MaxN": 3})]),
    "C16": dict(runs=[("C16", "TraceArrays", SESS, 9000, 30000), ("C16tab", "TraceTables", SESS, 6000, 60000)], models=ARR + REP[0:1]),
    "C17": dict(runs=[("C17", "TraceArrays", SESS, 7000, 30000), ("C17tab", "TraceTables", SESS, 5000, 60000)], models=ARR + REP[1:2]),
    "C18": dict(runs=[("C18", "TraceArrays", SESS, 9000, 30000), ("C18tab", "TraceTables", SESS, 7000, 60000)], models=ARR + REP[2:3]),
    "C19": dict(runs=[("C19bv", "TraceRegs", SESS, 5000, 20000), ("C19arr", "TraceArrays", SESS, 6000, 20000), ("C19tab", "TraceTables", SESS, 3000, 30000)], models=[]),
    "C21": dict(runs=[("C21", "TraceValues", SESS, 6000, 30000)], models=[("MCValues", {}, {"X": 3})]),
    "C20": dict(runs=[("C20", "TraceProfiles", "profiles", 14000, 40000)], models=[]),
    "C22": dict(runs=[("C22", "TraceFeatures", "features", 14000, 40000)], models=[]),
}
# behaviours generated from the specification and performed by the code:
# property -> (module, constants quick, constants thorough, driver, trace specification, variants quick, thorough)
ARRW = ("MCArrays", [dict(IW=1, D=2)], [dict(IW=1, D=3), dict(IW=2, D=2)], "arrays-script", "TraceArrays", [0], [0, 1, 2])
WALKS = {
    "C07": [("WalkMaps", [dict(N=3)], [dict(N=4)], "maps-walk", "TraceCoherence", [0], [0, 1, 2, 3, 4, 5])],
    "C13": [("WalkRegs", [dict(K=2)], [dict(K=3)], "regs-walk", "TraceRegs", [0], [0, 2, 4, 6])],
    "C14": [("WalkSlab", [dict(N=3)], [dict(N=4)], "slab-walk", "TraceSlab", [0, 1], [0, 1, 2])],
    "C15": [("WalkInterner", [dict(N=8)], [dict(N=10)], "interner-walk", "TraceInterner", [0], [0, 1, 2, 3])],
    "C21": [("MCValues", [dict(X=2, H=2)], [dict(X=2, H=3)], "values-walk", "TraceValues", [0, 1], [0, 1, 2, 3])],
    "C16": [ARRW], "C17": [ARRW], "C18": [ARRW],
    "C19": [ARRW[:3] + ("arrays-script", "TraceArrays", [100], [100, 101, 102]),
            ("WalkRegs", [dict(K=1)], [dict(K=2)], "regs-walk", "TraceRegs", [1], [1, 3, 5])],
}
# in every build: the behaviours of all stateful models (none of these variants serializes anything)
WALKS["C20"], WALKS["C22"] = [], []
for _w in [WALKS[p][0] for p in ("C07", "C13", "C14", "C15", "C16", "C21")]:
    for _p, _s in (("C20", "TraceProfiles"), ("C22", "TraceFeatures")):
        WALKS[_p] = WALKS[_p] + [_w[:4] + (_s, _w[5][:1], _w[6][:2] if _w[0] != "WalkRegs" else [0, 2])]
RESTART = {"MCArrays": {"IW": "iw", "D": "d"}, "WalkRegs": {"K": "k"}, "WalkSlab": {"N": "n"}, "WalkInterner": {}, "WalkMaps": {}, "MCValues": {"X": "x", "H": "n"}}
LIMIT = {"WalkRegs": 90, "WalkSlab": 40, "WalkInterner": 30, "WalkMaps": 40, "MCValues": 60}
# calls enumerated by GenCalls: property -> (driver, trace specification, kind)
GEN = {p: ("calls-script", "TraceCalls", CALLS) for p in "C02 C03 C04 C05 C06 C08 C09 C10 C11 C12".split()}
GEN.update(C01=("canon-script", "TraceCanon", SESS), C07=("pairs-script", "TraceCoherence", SESS))
ABANDON = {"TraceArrays", "TraceTables", "TraceRegs"}    # their sessions may end at an event another property decides
THOROUGH_BATCHES = 6
FEATURES = ["bigint", "serde1", "fraction1"]
# builds of the library: name -> (cargo profile, features)
BUILDS = dict(release=("release", FEATURES), debug=("debug", FEATURES), none=("debug", []), **{f: ("debug", [f]) for f in FEATURES})


def builds_of(prop):
    return ["debug", "none"] + FEATURES if prop == "C22" else ["release", "debug"]


class ToolError(Exception):
    pass


def build(names):
    """always from /repo's current sources"""
    def one(name):
        profile, features = BUILDS[name]
        cmd = ["cargo", "build", "--offline", "--quiet"] + (["--release"] if profile == "release" else [])
        if features != FEATURES:
            cmd += ["--no-default-features", "--features", ",".join(features)]
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HARNESS, "target", "b-" + name), RUSTFLAGS="-Awarnings")
        d = os.path.join(env["CARGO_TARGET_DIR"], profile, ".fingerprint")
        if os.path.isdir(d):
            for f in os.listdir(d):
                if re.match(r"baa-[0-9a-f]+$", f):
                    shutil.rmtree(os.path.join(d, f), ignore_errors=True)
        r = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("cargo build failed:\n" + r.stderr[-3000:])
    with cf.ThreadPoolExecutor(len(names)) as ex:
        list(ex.map(one, names))


def binary(name):
    return os.path.join(HARNESS, "target", "b-" + name, BUILDS[name][0], "baa-conform")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def drive(profile, driver, n, seed, out, script=None, limit=400):
    """runs the real code; returns the recorded lines"""
    os.makedirs(out, exist_ok=True)
    if script:
        shutil.copy(script, os.path.join(out, "script.ndjson"))
    base = [binary(profile), driver, str(n), str(seed), out]
    for sync in ([], ["--sync"]):
        for f in ("done", "inflight.json"):
            if os.path.exists(os.path.join(out, f)):
                os.remove(os.path.join(out, f))
        try:
            r = subprocess.run(base + sync, capture_output=True, text=True, timeout=limit, preexec_fn=limits)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
        lines = open(os.path.join(out, "trace.ndjson")).read().split("\n")
        lines = [x for x in lines if x.endswith("}")]
        done = os.path.exists(os.path.join(out, "done"))
        if done and rc == 0:
            return lines
        if lines and '"o":"hang"' in lines[-1]:
            return lines
        if rc == 3:
            raise ToolError("harness refused: " + r.stderr)
    # the process died: the call in flight is the observation
    p = os.path.join(out, "inflight.json")
    if os.path.exists(p):
        lines.append(open(p).read().strip())
        return lines
    raise ToolError(f"harness {driver} ({profile}) ended with {rc} and left no trace of the call in flight")


def sessions(lines):
    out = []
    for x in lines:
        if x.startswith('{"op":"reset"') or not out:
            out.append([])
        out[-1].append(x)
    return out


def merge(kind, rel, dbg):
    """the behaviours of both builds, without the duplicates"""
    if rel == dbg:
        return rel, 1
    if kind == CALLS:
        seen = set(rel)
        return rel + [x for x in dbg if x not in seen], 2
    seen = {tuple(s) for s in sessions(rel)}
    return rel + [x for s in sessions(dbg) if tuple(s) not in seen for x in s], 2


NONDET = ("d", "es", "runs", "cnt")         # which default a conversion picks is not determined


def strip(e):
    if e.get("op") == "entries":
        e = {k: v for k, v in e.items() if k not in NONDET}
    s = json.dumps(e, separators=(",", ":"))
    return s if len(s) < 4000 else "sha256 " + hashlib.sha256(s.encode()).hexdigest()


def pair_features(logs):
    """the log of the build with all features next to that of each other build, without duplicates"""
    none = '{"op":"missing","o":"missing"}'
    full, out = logs.pop("debug"), {}
    for name, sub in logs.items():
        if sub == full:
            sub = full
        for i in range(max(len(full), len(sub))):
            p, q = full[i] if i < len(full) else none, sub[i] if i < len(sub) else none
            a = json.loads(p)
            b = a if p == q else json.loads(q)
            x = strip(a)
            y = x if p == q else strip(b)
            # one event stands for all the builds with the same two records
            out.setdefault((a["op"], a.get("o", "reset"), b.get("o", "reset"), x, y), []).append(name)
    return [json.dumps(dict(op=k[0], oa=k[1], of=k[2], a=k[3], f=k[4], sets=[BUILDS[n][1] for n in sorted(set(v))]), separators=(",", ":")) for k, v in out.items()]


def pair(rel, dbg):
    out = []
    none = '{"op":"missing","o":"missing"}'
    for i in range(max(len(rel), len(dbg))):
        r, d = json.loads(rel[i] if i < len(rel) else none), json.loads(dbg[i] if i < len(dbg) else none)
        op = d["op"]
        e = dict(op=op, bad=int(op.startswith("x.")), od=d.get("o", "reset"), orr=r.get("o", "reset"))
        if e["bad"]:
            same = {k: v for k, v in d.items() if k not in ("o", "r")} == {k: v for k, v in r.items() if k not in ("o", "r")}
            if not same:
                e["orr"] = "different call"
            if op in ("x.fromu64", "x.fromi64"):
                e["x"] = dict(d=d["d"], n=d["n"])
                e["dres"], e["rres"] = d["r"], r.get("r")
            else:
                e["x"] = d
        else:
            e["d"], e["r"] = strip(d), strip(r)
        out.append(json.dumps(e, separators=(",", ":")))
    return out


def tlc(module, cfg, cwd, workers, timeout, meta, heap="5g", extra=()):
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + cwd, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", os.path.join(cwd, meta), "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} took more than {timeout} s")
    finally:
        shutil.rmtree(os.path.join(cwd, meta), ignore_errors=True)
    o = r.stdout
    m = None
    for m in re.finditer(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", o):
        pass
    st = (int(m.group(1)), int(m.group(2)), int(m.group(3))) if m else (0, 0, 0)
    return dict(out=o, ok="Model checking completed. No error has been found." in o, gen=st[0], distinct=st[1], rc=r.returncode)


def model(scratch, entry, thorough, i):
    """model checks one module of the specification"""
    module, q, t = entry
    consts = t if thorough else q
    cfg = open(os.path.join(SPEC, module + ".cfg")).read()
    for k, v in consts.items():
        cfg, n = re.subn(rf"(\b{k}\s*=\s*)\S+", rf"\g<1>{v}", cfg)
        assert n == 1, (module, k)
    name = f"{module}_{i}.cfg"
    open(os.path.join(scratch, name), "w").write(cfg)
    r = tlc(module, name, scratch, 4, 1500 if thorough else 300, f"md-{module}-{i}")
    if not r["ok"]:
        raise ToolError(f"the specification itself fails: {module}\n" + r["out"][-3000:])
    return dict(model=module, constants=consts, states=r["distinct"], transitions=r["gen"])


def walk_edges(scratch, module, consts):
    """the labelled transitions of a model"""
    tag = module + "".join(str(v) for v in consts.values())
    cfg = open(os.path.join(SPEC, module + ".cfg")).read()
    for k, v in dict(consts, Emit="TRUE").items():
        cfg = re.sub(rf"(\b{k}\s*=\s*)\S+", rf"\g<1>{v}", cfg)
    open(os.path.join(scratch, f"{tag}_emit.cfg"), "w").write(cfg + "\nACTION_CONSTRAINT EmitStep\n")
    r = tlc(module, f"{tag}_emit.cfg", scratch, 1, 600, "md-emit-" + tag)
    if not r["ok"]:
        raise ToolError(f"{module} (emit) fails\n" + r["out"][-3000:])
    edges = []
    for line in r["out"].splitlines():
        if line.startswith('"EDGE '):
            e = json.loads(json.loads(line)[5:])
            edges.append((json.dumps(e["s"], sort_keys=True), e["o"], json.dumps(e["t"], sort_keys=True)))
    return edges, dict(model=module, constants=consts, states=r["distinct"], transitions=r["gen"])


def enumerate_calls(scratch, prop, thorough):
    """the calls GenCalls lists for this property"""
    d = os.path.join(scratch, "gen-" + prop)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    open(os.path.join(d, "GenCalls.cfg"), "w").write(f'CONSTANT Prop = "{prop}"\nCONSTANT Deep = {"TRUE" if thorough else "FALSE"}\n')
    r = tlc("GenCalls", "GenCalls.cfg", d, 1, 900, "md")
    m = re.search(r'<<"CALLS", (\d+)>>', r["out"])
    if not r["ok"] or not m:
        raise ToolError("GenCalls fails\n" + r["out"][-3000:])
    out = os.path.join(scratch, f"calls-{prop}.ndjson")
    os.rename(os.path.join(d, "calls.ndjson"), out)
    shutil.rmtree(d)
    return out, int(m.group(1))


EQS = [dict(op="eq", h=1, s=2, i=0, v=0), dict(op="eq", h=2, s=1, i=0, v=0)]
ENTRIES = [dict(op="entries", h=1, s=0, i=0, v=0), dict(op="entries", h=2, s=0, i=0, v=0)]
ASKS = {("C17", "MCArrays"): ENTRIES, ("C18", "MCArrays"): EQS, ("C19", "MCArrays"): EQS + ENTRIES}


def covering_walks(edges, restart, asks, limit):
    """sessions that together take every transition of the model; the first visit of a state asks for everything it shows"""
    from collections import defaultdict, deque
    out = defaultdict(dict)
    for s, o, t in edges:
        out[s][json.dumps(o, sort_keys=True)] = (o, t)
    init = edges[0][0]
    todo = {s: set(m) for s, m in out.items()}
    left = sum(len(m) for m in todo.values())
    lines, visited, here, n = [], set(), None, 0

    def take(k):
        nonlocal here, left, n
        o, t = out[here][k]
        lines.append(o)
        if k in todo[here]:
            todo[here].discard(k)
            left -= 1
        here = t
        n += 1
        if t not in visited:
            visited.add(t)
            lines.extend(asks)
    while left:
        if here is None or n > limit:
            lines.append(dict(restart, op="restart"))
            here, n = init, 0
        if todo[here]:
            take(sorted(todo[here])[0])
            continue
        prev, q, goal = {here: None}, deque([here]), None
        while q and goal is None:
            s = q.popleft()
            for k, (o, t) in out[s].items():
                if t not in prev:
                    prev[t] = (s, k)
                    if todo[t]:
                        goal = t
                        break
                    q.append(t)
        if goal is None:
            break
        path = []
        while prev[goal]:
            s, k = prev[goal]
            path.append(k)
            goal = s
        for k in reversed(path):
            take(k)
    return lines


def validate(prop, spec, kind, lines, scratch, info, tag):
    """does the specification allow what was recorded?  returns None or (line number, reason, line)"""
    d = os.path.join(scratch, "v-" + tag)
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith((".tla", ".cfg")):
            shutil.copy(os.path.join(SPEC, f), d)
    kf = json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
    mine = [dict(k["kf"], id=k["id"]) for k in kf if k["property"] == prop]
    mine.append(dict(id="none", op="none", o="none", wmin=0, notn=[]))
    json.dump(mine, open(os.path.join(d, "kf.json"), "w"))
    json.dump(dict(prop=prop), open(os.path.join(d, "prop.json"), "w"))
    open(os.path.join(d, "trace.ndjson"), "w").write("\n".join(lines) + "\n")
    r = tlc(spec, spec + ".cfg", d, 8, 1200, "md")
    info["states"] += r["distinct"]
    info["transitions"] += r["gen"]
    for k in re.findall(r'<<"KNOWN", "([^"]+)">>', r["out"]):
        info["known"].add(k)
    if r["ok"] and spec in ABANDON:
        ends, begun = set(re.findall(r'<<"END", (\d+)>>', r["out"])), sum(1 for s in sessions(lines) if len(s) > 1)
        if len(ends) > begun:
            raise ToolError(f"{spec}: {len(ends)} of {begun} sessions")
        info["sessions"] += begun
        info["abandoned"] += begun - len(ends)
        shutil.rmtree(d)
        return None
    if r["ok"]:
        want = len(lines) + (0 if kind == SESS else min(64, len(lines)))
        if r["distinct"] != want:
            raise ToolError(f"{spec} consumed {r['distinct']} of {want} events\n" + r["out"][-2000:])
        shutil.rmtree(d)
        return None
    rej = re.findall(r'<<"REJECT", (\d+)>>', r["out"])
    ls = re.findall(r"/\\ l = (\d+)", r["out"])
    if "Deadlock reached" in r["out"]:
        l = int(rej[0]) if rej else int(ls[-1])
        reason = "no action of the specification matches this event"
    elif ls and re.search(r"Invariant \S+ is violated", r["out"]):
        l, reason = int(ls[-1]) - 1, re.search(r"Invariant \S+ is violated", r["out"]).group(0)
    elif ls and "The error occurred when TLC was evaluating" in r["out"]:
        l, reason = int(ls[-1]), "the event is not of the form the specification expects"
    else:
        raise ToolError(f"TLC failed on {spec}\n" + r["out"][-3000:])
    return l, reason, lines[l - 1]


def report(prop, driver, spec, kind, n, seed, lines, bad):
    l, reason, line = bad
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop}-{driver}-{seed}.ndjson")
    if kind == SESS:
        s = l - 1
        while s > 0 and not lines[s].startswith('{"op":"reset"'):
            s -= 1
        part = lines[s:l]
    else:
        part = [line]
    with open(path, "w") as f:
        f.write(json.dumps(dict(property=prop, driver=driver, spec=spec, kind=kind, n=n, seed=seed, reason=reason)) + "\n")
        f.write("\n".join(part) + "\n")
    print(f"rejected by {spec}: {reason}; event {l}: {line[:1500]}")
    print(f"VIOLATION property={prop} replay={path}")


def run(prop, thorough, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"baa-{prop}-", dir=os.environ.get("TMPDIR", "/tmp"))
    info = dict(states=0, transitions=0, known=set(), sessions=0, abandoned=0)
    ops, models, samples, traces, events, impl_runs = {}, [], [], 0, 0, 0
    violated = 0
    try:
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".cfg")):
                shutil.copy(os.path.join(SPEC, f), scratch)
        cfgp = P[prop]
        with cf.ThreadPoolExecutor(4) as ex:
            fb = ex.submit(build, builds_of(prop))
            fm = [ex.submit(model, scratch, m, thorough, i) for i, m in enumerate(cfgp["models"])]
            fw = [(w, c, ex.submit(walk_edges, scratch, w[0], c)) for w in WALKS.get(prop, []) for c in (w[2] if thorough else w[1])]
            gens = [prop] if prop in GEN else []
            if prop in ("C20", "C22"):
                gens = sorted(GEN)
            fg = [(g, ex.submit(enumerate_calls, scratch, g, thorough)) for g in gens]
            fb.result()
            models = [f.result() for f in fm]
            walks = [(w, c, f.result()) for w, c, f in fw]
            gens = [(g, f.result()) for g, f in fg]
        jobs = []
        for b in range(THOROUGH_BATCHES if thorough else 1):
            for driver, spec, kind, nq, nt in cfgp["runs"]:
                jobs.append((driver, spec, kind, nt if thorough else nq, seed * 1000 + b if thorough else seed, None))
        for g, (sc, count) in gens:
            models.append(dict(model="GenCalls, enumerated and performed", constants=dict(Prop=g, Deep=thorough), calls=count))
            gd, gs, gk = GEN[g] if prop in GEN else GEN[g][:1] + cfgp["runs"][0][1:3]
            for variant in range(3 if thorough else 1):
                jobs.append((gd, gs, gk, 3 * seed + variant, seed, sc))
        for i, ((module, _, _, wd, ws, vq, vt), c, (edges, m)) in enumerate(walks):
            sc = os.path.join(scratch, f"script{i}.ndjson")
            ls = covering_walks(edges, {q: c[k] for k, q in RESTART[module].items()}, ASKS.get((prop, module), []), LIMIT.get(module, 150))
            open(sc, "w").write("\n".join(json.dumps(x) for x in ls) + "\n")
            models.append(dict(m, transitions_replayed=len(edges), steps=len(ls)))
            for variant in (vt if thorough else vq):
                jobs.append((wd, ws, cfgp["runs"][0][2] if prop in ("C20", "C22") else SESS, variant + (0 if thorough else 6 * seed), seed, sc))
        for j, (driver, spec, kind, n, sd, sc) in enumerate(jobs):
            names = builds_of(prop)
            with cf.ThreadPoolExecutor(len(names)) as ex:
                fr = {p: ex.submit(drive, p, driver, n, sd, os.path.join(scratch, f"{p}-{j}"), sc, 600 if thorough else 200) for p in names}
                logs = {p: f.result() for p, f in fr.items()}
            impl_runs += len(names)
            if kind == "features":
                lines = pair_features(logs)
            else:
                lines = pair(logs["release"], logs["debug"]) if kind == "profiles" else merge(kind, logs["release"], logs["debug"])[0]
            for p in names:
                shutil.rmtree(os.path.join(scratch, f"{p}-{j}"))
            for x in lines:
                k = x[7:x.index('"', 7)]
                ops[k] = ops.get(k, 0) + 1
            events += len(lines)
            traces += len(lines) if kind != SESS else sum(1 for x in lines if x.startswith('{"op":"reset"'))
            if len(samples) < 4:
                samples += [json.loads(x) for x in (lines[len(lines) // 3], lines[2 * len(lines) // 3]) if len(x) < 4000]
            bad = validate(prop, spec, kind, lines, scratch, info, str(j))
            if bad:
                violated += 1
                report(prop, driver, spec, kind, n, sd, lines, bad)
                break
        for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]:
            if k["property"] == prop and k["id"] in info["known"]:
                print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
        if not samples:
            samples = [dict(note="events of this run are too long to show")]
        cov = dict(
            states=info["states"] + sum(m.get("states", 0) for m in models),
            transitions=info["transitions"] + sum(m.get("transitions", 0) for m in models),
            traces_validated_against_impl=traces, events_validated=events, implementation_runs=impl_runs,
            sessions_left_early_because_of_another_property=info["abandoned"],
            events_by_operation=ops, models=models, samples=samples,
            rule="a trace is one recorded session (or one recorded call for side-effect free operations) of the real library, "
                 "in " + ("builds with every single feature, none and all of them" if prop == "C22" else "a debug and a release build") + " with the same seed; TLC has to match every event with an action of the specification",
            exhaustive=False)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(dict(property=prop, tier="thorough" if thorough else "quick", seed=seed, level="model_checking", coverage=cov,
                       assumptions=["TLC and the CommunityModules evaluate TLA+ correctly", "the harness logs what the library returned",
                                    "behaviours not driven by the harness are not decided"],
                       wall_s=round(time.time() - t0, 1), violations=violated),
                  open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    finally:
        if not os.environ.get("BAA_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
    if info["abandoned"]:
        print(f"note: {info['abandoned']} of {info['sessions']} sessions ended at an event that breaks another property")
    print(f"{prop}: {events} events of the implementation against the specification, {'rejected' if violated else 'all accepted'} ({time.time() - t0:.0f} s)")
    return 1 if violated else 0


def replay(path):
    """validates the recorded part again, then drives the current code the same way"""
    f = open(path).read().strip().split("\n")
    m, lines = json.loads(f[0]), f[1:]
    scratch = tempfile.mkdtemp(prefix="baa-replay-")
    try:
        info = dict(states=0, transitions=0, known=set(), sessions=0, abandoned=0)
        bad = validate(m["property"], m["spec"], m["kind"], lines, scratch, info, "r")
        print("recorded:", "rejected" if bad else "accepted", (bad or ("", "", ""))[1])
        print("now: check.py", m["property"], "--seed", m["seed"])
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == "--replay":
        return replay(a[1])
    thorough = "--thorough" in a or ("--quick" not in a and os.environ.get("VERIF_TIER") == "thorough")
    seed = int(a[a.index("--seed") + 1]) if "--seed" in a else int(os.environ.get("VERIF_SEED", "1"))
    try:
        return run(a[0], thorough, seed)
    except ToolError as e:
        print(f"ERROR of the check: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
