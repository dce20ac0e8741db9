#!/usr/bin/env python3
"""Mutation campaign: mutate.py <PID> [--n N] [--files a,b] [--seed S] [--lines] measures what the check of a property sees.

Every mutant is a small edit of one source file in a scratch copy of /repo/src; the driver is rebuilt against the copy, the
scenarios of the check are run on it, and the scenarios whose events differ from those of the unchanged sources are judged by
the trace specification.  Survivors (same events, or accepted events) are listed for review.  Not used by the checks."""
import argparse, concurrent.futures as cf, glob, json, os, random, re, shutil, sys, tempfile, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "gen")]
import vlib, props

SUBS = [(r"(?<![+\w])\+(?![+=])", "-"), (r"(?<![-\w>e(,])\s-(?![-=>])", " +"), (r"(?<=[\w)\]]) ?\*(?=[ \w(])(?!=)", "/"), (r"(?<=[\w)\]]) ?/(?=[ \w(])", "*"),
        (r"\+=", "-="), (r"\+=", "="), (r"-=", "+="), (r"\*=", "="), (r"(?<![<>-])<(?![<=])(?= ?[\w(])", "<="), (r"(?<![<>-])>(?![>=])(?= ?[\w(])", ">="), (r"<=", "<"), (r">=", ">"), (r"==", "!="),
        (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"),
        (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])2(?![\w.])", "1"), (r"(?<![\w.])3(?![\w.])", "2"), (r"(?<![\w.])2\.0\b", "1.0"), (r"(?<![\w.])1\.0\b", "2.0"), (r"(?<![\w.])0\.5\b", "1.0"),
        (r"(?<![\w.])0\.0\b", "1.0"), (r"(?<![\w.])3\.0\b", "2.0"), (r"\+\+", "--"), (r"\bsqrt\b", "cbrt"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\bfabs\b", "(double)"), (r"\bmax\b", "min"), (r"\bmin\b", "max")]


def mutants(path, rng):
    src = open(path).read()
    res = []
    blank = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), src, flags=re.S)
    blank = re.sub(r"//[^\n]*", lambda m: " " * len(m.group(0)), blank)
    blank = re.sub(r'"(?:\\.|[^"\\\n])*"', lambda m: '"' + "x" * (len(m.group(0)) - 2) + '"', blank)
    pos = 0
    for no, line in enumerate(blank.split("\n"), 1):
        if line.strip() and not line.lstrip().startswith("#") and "template" not in line and "typedef" not in line and "using " not in line and "THROWERR" not in line and "namespace" not in line:
            for pat, new in SUBS:
                for m in re.finditer(pat, line):
                    a, b = pos + m.start(), pos + m.end()
                    res.append((no, src[:a] + new + src[b:], "%s -> %s @%d" % (m.group(0), new, m.start())))
            if re.match(r"^\s*[\w:>().\[\], *+\-/]+(=|\+=|-=|\()[^{}]*;\s*$", line) and not re.match(r"^\s*(return|auto|const|Plato::|typedef|using|int|double|static|friend|virtual)\b", line):
                res.append((no, src[:pos] + " " * len(line) + src[pos + len(line):], "delete"))
            # swapped neighbours in an index list
            for m in re.finditer(r"\((\w+), ?(\w+)\)", line):
                if m.group(1) != m.group(2):
                    a, b = pos + m.start(), pos + m.end()
                    res.append((no, src[:a] + "(%s, %s)" % (m.group(2), m.group(1)) + src[b:], "swap %s" % m.group(0)))
        pos += len(line) + 1
    rng.shuffle(res)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--n", type=int, default=40)
    ap.add_argument("--files", default="")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--parts", default="", help="only the units of the driver whose flags match")
    ap.add_argument("--mc", type=int, default=1)
    ap.add_argument("--j", type=int, default=7)
    a = ap.parse_args()
    spec = props.get(a.pid)
    entry = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if json.loads(l)["id"] == a.pid][0]
    pats = a.files.split(",") if a.files else entry["anchors"]["files"]
    files = sorted({f for p in pats for f in glob.glob(os.path.join("/repo", p))})
    work = tempfile.mkdtemp(prefix="mut-%s-" % a.pid, dir="/tmp")
    try:
        vlib.BUILD = os.path.join(work, "base")
        os.makedirs(vlib.BUILD)
        flags = list(spec.get("flags", ["-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK"]))
        parts = tuple(p for p in spec.get("parts", ()) if not a.parts or re.search(a.parts, " ".join(p[1])))

        def build(repo):
            return vlib.build_driver(spec["driver"], spec.get("sources", ()), spec.get("opt", "-O0"), flags, parts=parts, mesh=spec.get("mesh", False), repo=repo)
        rng = random.Random("%s-1-quick" % a.pid)
        scen = []
        with cf.ThreadPoolExecutor(8) as ex:
            fd = ex.submit(build, "/repo")
            for m in ex.map(lambda m: vlib.model_check(m, work), [m for m in spec["mc"] if not m.get("thorough") and a.mc]):
                for s in m["scenarios"]:
                    ops = json.loads(re.sub(r'"(-?\d+(?:/\d+)?)~[^"]*"', r'"\1"', s))
                    scen.append({"id": "%s-%d" % (m["module"], len(scen)), "ops": ops if isinstance(ops, list) else [ops]})
            exe = fd.result()
        for ops in spec["gen"](rng, "quick"):
            scen.append({"id": "gen-%d" % len(scen), "ops": vlib.hexd(ops)})
        if a.parts:                    # scenarios that need only the units built
            have = {"".join(f.split("=")[1] for f in p[1]) for p in parts}
            scen = [s for s in scen if all(o.get("phys") is None or o["phys"] + str(o["dim"]) in have for o in s["ops"])]

        def split(evs):
            r = {}
            for e in evs:
                r.setdefault(e["sc"], []).append(json.dumps({k: v for k, v in e.items() if k != "what"}, sort_keys=True))
            return r
        base = split(vlib.run_driver(exe, scen, work, "base", timeout=spec.get("timeout", 100), ranks=spec.get("ranks", 0)))
        rng = random.Random(a.seed)
        todo = []
        for f in files:
            ms = mutants(f, rng)
            todo += [(f,) + m for m in ms[:max(1, a.n // len(files) + 1)]]
        rng.shuffle(todo)
        todo = todo[:a.n]
        tally, lock = {}, threading.Lock()
        local = threading.local()

        def one(job):
            f, no, text, what = job
            d = tempfile.mkdtemp(dir=work)
            try:
                shutil.copytree("/repo/src", os.path.join(d, "src"), copy_function=os.link)
                p = os.path.join(d, "src", os.path.relpath(f, "/repo/src"))
                os.remove(p)
                open(p, "w").write(text)
                try:
                    exe = build(d)
                except vlib.CheckError:
                    return "invalid", ""
                try:
                    ev = vlib.run_driver(exe, scen, d, "m", timeout=60, ranks=spec.get("ranks", 0))
                except vlib.CheckError as x:
                    return "error", str(x)[:200]
                got = split(ev)
                diff = [i for i in base if got.get(i) != base[i] and i in got]
                if not diff:
                    return "same", ""
                pick = set(random.Random(1).sample(diff, min(len(diff), 150)))
                v, _, _ = vlib.validate(spec["trace"], [e for e in ev if e["sc"] in pick], d, "m", chunks=1)
                bad = [x for x in v if x[1] == "bad"]
                return ("killed", bad[0][2]) if bad else ("accepted", "%d scenarios differ" % len(diff))
            except vlib.CheckError as x:
                return "error", str(x)[-300:]
            finally:
                shutil.rmtree(d, ignore_errors=True)
                if "exe" in locals():
                    shutil.rmtree(os.path.dirname(exe), ignore_errors=True)

        with cf.ThreadPoolExecutor(a.j) as ex:
            for job, (res, why) in zip(todo, ex.map(one, todo)):
                tally[res] = tally.get(res, 0) + 1
                if res in ("same", "accepted", "error"):
                    line = open(job[0]).read().split("\n")[job[1] - 1].strip()
                    print("%-8s %s:%d [%s] %s %s" % (res, os.path.relpath(job[0], "/repo/src"), job[1], job[3], line[:140], why), flush=True)
        print(a.pid, tally, flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
