#!/usr/bin/env python3
"""Which clauses of the specification matter?  Small edits of the modules; an edit is noticed if a model that uses the module
fails, or if a log of the unchanged library is rejected.  (An edit that only allows more cannot be noticed by a log.)
   specmut.py K OUT.json [MODULE...]"""
import concurrent.futures as cf, glob, json, os, queue, random, re, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
K, OUT, ONLY = int(sys.argv[1]), sys.argv[2], sys.argv[3:]
N = int(os.environ.get("EVENTS", "3000"))
OPS = [(r" < ", [" <= "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" = ", [" # "]), (r" # ", [" = "]), (r" \+ ", [" - "]), (r" - ", [" + "]),
       (r" \* ", [" + "]), (r" \\div ", [" % "]), (r" % ", [" \\\\div "]), (r" /\\ ", [" \\\\/ "]), (r" \\/ ", [" /\\\\ "]), (r"(?<![\w.])0(?![\w.])", ["1"]),
       (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])([2-9]|[1-9]\d+)(?![\w.])", ["INC", "DEC"]), (r"\bTRUE\b", ["FALSE"]), (r"\bFALSE\b", ["TRUE"]),
       (r"\bIF (?!~)", ["IF ~"]), (r"\\E ", ["\\\\A "]), (r"\\A ", ["\\\\E "]), (r" \\in ", [" \\\\notin "]), (r"~", [""])]


def uses(mod, seen=None):
    """the modules that mod extends or instantiates, transitively"""
    seen = set() if seen is None else seen
    p = os.path.join(check.SPEC, mod + ".tla")
    if mod in seen or not os.path.exists(p):
        return seen
    seen.add(mod)
    s = open(p).read()
    for m in re.findall(r"EXTENDS ([\w, \n]+?)\n(?=\S)", s) + re.findall(r"INSTANCE (\w+)", s):
        for x in re.findall(r"\w+", m):
            uses(x, seen)
    return seen


def edits(mod):
    lines = open(os.path.join(check.SPEC, mod + ".tla")).read().split("\n")
    out = []
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(("(*", "*", "--", "==", "EXTENDS", "CONSTANT", "VARIABLE", "RECURSIVE", "\\*")) or s.endswith("*)") and "==" not in s:
            continue
        code = re.sub(r"\\\*.*|\(\*.*", "", l)
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    t = {"INC": str(int(m.group(0)) + 1) if m.group(0).strip().isdigit() else "", "DEC": str(int(m.group(0)) - 1) if m.group(0).strip().isdigit() else ""}.get(r, r.replace("\\\\", "\\"))
                    out.append((mod, i, l, code[:m.start()] + t + code[m.end():]))
    return out


def main():
    base = tempfile.mkdtemp(prefix="specmut-")
    check.build(["release"])
    logs = []
    for p, c in check.P.items():
        for d, spec, kind, nq, nt in c["runs"]:
            if kind in (check.CALLS, check.SESS):
                lines = check.drive("release", d, min(nq, N), 5, os.path.join(base, "d-" + d))
                lines = check.merge(kind, lines, lines)[0]
                logs.append((p, d, spec, kind, lines))
                print(d, len(lines), flush=True)
    models = []
    for c in check.P.values():
        for m in c["models"]:
            if m not in models:
                models.append(m)
    dep = {s: uses(s) for s in {m[0] for m in models} | {x[2] for x in logs}}
    mods = ONLY or sorted({m for d in dep.values() for m in d if not m.startswith(("MC", "Walk", "Trace"))} - {"Obs"})
    work = [e for m in mods for e in edits(m)]
    random.Random(1).shuffle(work)
    print(len(work), "edits", flush=True)
    res = {"noticed": [], "unnoticed": [], "broken": []}

    def one(e):
        mod, i, old, new = e
        d = tempfile.mkdtemp(dir=base)
        try:
            for f in glob.glob(os.path.join(check.SPEC, "*")):
                shutil.copy(f, d)
            ls = open(os.path.join(d, mod + ".tla")).read().split("\n")
            ls[i] = new
            open(os.path.join(d, mod + ".tla"), "w").write("\n".join(ls))
            for j, (m, q, t) in enumerate(models):
                if mod in dep[m]:
                    cfg = open(os.path.join(d, m + ".cfg")).read()
                    for k, v in q.items():
                        cfg = re.sub(rf"(\b{k}\s*=\s*)\S+", rf"\g<1>{v}", cfg)
                    open(os.path.join(d, f"m{j}.cfg"), "w").write(cfg)
                    try:
                        r = check.tlc(m, f"m{j}.cfg", d, 1, 300, "md", "3g")
                    except check.ToolError:
                        return "noticed", m
                    if "Parsing or semantic analysis failed" in r["out"]:
                        return "broken", ""
                    if not r["ok"]:
                        return "noticed", m
            for p, dr, spec, kind, lines in logs:
                if mod in dep[spec]:
                    kf = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
                    json.dump([dict(k["kf"], id=k["id"]) for k in kf if k["property"] == p] + [dict(id="none", op="none", o="none", wmin=0, notn=[])], open(os.path.join(d, "kf.json"), "w"))
                    json.dump(dict(prop=p), open(os.path.join(d, "prop.json"), "w"))
                    open(os.path.join(d, "trace.ndjson"), "w").write("\n".join(lines) + "\n")
                    try:
                        r = check.tlc(spec, spec + ".cfg", d, 1, 400, "md", "3g")
                    except check.ToolError:
                        return "noticed", dr
                    if "Parsing or semantic analysis failed" in r["out"]:
                        return "broken", ""
                    if not r["ok"] or (spec in check.ABANDON and len(set(re.findall(r'<<"END", (\d+)>>', r["out"]))) < sum(1 for s in check.sessions(lines) if len(s) > 1)):
                        return "noticed", dr
            return "unnoticed", ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
    try:
        with cf.ThreadPoolExecutor(K) as ex:
            for e, (v, by) in zip(work, ex.map(one, work)):
                res[v].append(dict(module=e[0], line=e[1] + 1, old=e[2].strip(), new=e[3].strip(), by=by))
                if v == "unnoticed":
                    print("UNNOTICED", e[0], e[1] + 1, "|", e[2].strip(), "=>", e[3].strip(), flush=True)
                json.dump(res, open(OUT, "w"), indent=1)
    finally:
        shutil.rmtree(base, ignore_errors=True)
    print({k: len(v) for k, v in res.items()})


main()
