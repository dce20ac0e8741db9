"""Infrastructure of the checks: builds the drivers from /repo's working tree, runs TLC on the models and on the recorded
traces, confirms rejections, writes the evidence."""
import concurrent.futures as cf
import copy, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
CMJAR = "/opt/veriftools/tla/CommunityModules-deps.jar"
LIBS = ("epetra kokkoskernels kokkosalgorithms kokkoscontainers kokkoscore sacado teuchoskokkoscomm teuchoskokkoscompat "
        "teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser teuchoscore").split()
DEFS = ["-D" + d for d in "PLATOANALYZE_2D PLATOANALYZE_3D PLATO_ELLIPTIC PLATO_PARABOLIC PLATO_HYPERBOLIC "
        "PLATO_STABILIZED PLATO_PLASTICITY".split()]
ENV = dict(os.environ, OMPI_CXX="g++", OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self",
           OMPI_MCA_pml="ob1", OMPI_MCA_plm_rsh_agent="true", OMPI_MCA_btl_base_warn_component_unused="0", TZ="UTC",
           LANG="C.UTF-8")
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself failed: neither a pass nor a violation."""


def log(*a):
    print("[check]", *a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def src_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src"))):
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:20]


def java_dir():
    src = os.path.join(SPEC, "java", "Rat.java")
    out = os.path.join(BUILD, "java-" + sha(open(src, "rb").read()))
    if not os.path.exists(os.path.join(out, "Rat.class")):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        r = subprocess.run(["javac", "-nowarn", "-cp", TLAJAR, "-d", tmp, src], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("javac failed: " + r.stderr)
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


FE_LIBS = "aztecoo triutils epetraext".split()


def build_driver(name, sources=(), opt="-O0", extra=(), parts=(), mesh=False, repo=None):
    """Compile harness/<name>.cpp with the given /repo/src sources; returns the executable.  parts: further units of the harness,
    (file, (flags...)); mesh: with the stand-in for Omega_h (and without the dimension switches of the build, whose explicit
    instantiations would be needed otherwise)."""
    files = sorted(glob.glob(os.path.join(HARN, "*.hpp"))) + [os.path.join(HARN, name + ".cpp")] \
        + [os.path.join(HARN, f) for f in sorted({f for f, _ in parts})] + (sorted(glob.glob(os.path.join(HARN, "omega_h", "*"))) if mesh else [])
    if repo:                           # (mutation campaigns) sources of a scratch copy, kept out of the cache of drivers
        extra = list(extra) + ["-fmacro-prefix-map=%s=/repo" % repo]
    key = sha(repo or src_hash(), opt, " ".join(extra), " ".join(sources), repr(parts), mesh, *[open(f, "rb").read() for f in files])
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    exe = os.path.join(out, "driver")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    if not repo:
        for old in sorted(glob.glob(os.path.join(BUILD, name + "-*")), key=os.path.getmtime)[:-4 if mesh else None]:
            shutil.rmtree(old, ignore_errors=True)
        for old in sorted(glob.glob(os.path.join(BUILD, "obj", "*.o")), key=os.path.getmtime)[:-120]:
            os.remove(old)
    tmp = tempfile.mkdtemp(dir=BUILD)
    flags = ["-std=c++14", "-w", opt] + [d for d in DEFS if not (mesh and "ANALYZE" in d)] + list(extra) \
        + ["-include", os.path.join(HARN, "compat.hpp"), "-I" + HARN] + (["-I" + os.path.join(HARN, "omega_h")] if mesh else []) \
        + ["-I" + os.path.join(repo or REPO, "src"), "-I/usr/include/trilinos"]
    dims = ["-DPLATOANALYZE_%dD" % d for d in (1, 2, 3)] if mesh else []
    units = [(os.path.join(HARN, f), list(fl)) for f, fl in parts] + [(os.path.join(HARN, name + ".cpp"), [])] \
        + [(os.path.join(repo or REPO, "src", s), dims) for s in sources]

    def comp(i):
        o = os.path.join(tmp, "u%d.o" % i)
        if mesh:                       # expensive units: reuse the object of the same preprocessed text
            cmd = ["mpicxx"] + flags + units[i][1]
            r = subprocess.run(cmd + ["-E", "-P", units[i][0]], capture_output=True, env=ENV)
            if r.returncode == 0:
                os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
                c = os.path.join(BUILD, "obj", sha(r.stdout, opt, " ".join(f for f in extra if "prefix-map" not in f)) + ".o")
                if not os.path.exists(c):
                    r = subprocess.run(cmd + ["-c", units[i][0], "-o", o], capture_output=True, text=True, env=ENV)
                    if r.returncode:
                        return o, r
                    if repo and repo != "/repo":
                        return o, r
                    os.rename(o, c)
                os.utime(c)
                return c, r
        r = subprocess.run(["mpicxx"] + flags + units[i][1] + ["-c", units[i][0], "-o", o], capture_output=True, text=True, env=ENV)
        return o, r
    with cf.ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(comp, range(len(units))))
    for o, r in res:
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise CheckError("driver %s does not compile against /repo/src:\n%s" % (name, r.stderr[-6000:]))
    r = subprocess.run(["mpicxx"] + [f for f in extra if f.startswith("-fsan")] + [o for o, _ in res]
                       + ["-o", os.path.join(tmp, "driver")] + ["-ltrilinos_" + l for l in (FE_LIBS if mesh else []) + LIBS],
                       capture_output=True, text=True, env=ENV)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise CheckError("driver %s does not link:\n%s" % (name, r.stderr[-4000:]))
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


MPIRUN = ["mpirun", "--oversubscribe", "--bind-to", "none", "-n"]
MPIENV = dict(OMPI_MCA_btl="self,vader", OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_oob_tcp_if_include="lo",
              OMPI_MCA_mpi_yield_when_idle="1", PRTE_MCA_prte_silence_shared_fs="1")


def run_driver(exe, scenarios, workdir, tag, timeout=150, ranks=0):
    """Run the scenarios on the real code; returns the list of recorded events."""
    sc, tr, pg = (os.path.join(workdir, tag + s) for s in (".scen", ".trace", ".progress"))
    with open(sc, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    events, skip, died, slow = [], 0, 0, False
    open(tr, "w").close()
    while True:
        size = os.path.getsize(tr)
        if os.path.exists(pg):
            os.remove(pg)
        reason = None
        try:
            launch = ["timeout", "-k", "5", str(timeout)] + MPIRUN + [str(ranks)] if ranks else []
            r = subprocess.run(launch + [exe, sc, tr, pg] + ([str(skip)] if skip else []), stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, env=dict(ENV, TMPDIR=workdir, **MPIENV) if ranks else ENV,
                               timeout=timeout + 20 if ranks else timeout, cwd=workdir)
            if ranks and r.returncode in (124, 137):
                died += 2
            if r.returncode == 2:
                raise CheckError("driver error: " + r.stderr.decode(errors="replace")[-2000:])
            if r.returncode:
                reason = "exit status %d" % r.returncode
        except subprocess.TimeoutExpired:
            reason = "no return within %d s" % timeout
            died += 2
        p = open(pg).read().split() if os.path.exists(pg) else []
        if reason is None:
            if p != ["done"]:
                raise CheckError("driver stopped early")
            break
        if len(p) != 2 or p == ["done"]:
            if died and not slow and not ranks and reason.startswith("no return"):      # a busy machine: once more, with more time
                slow, timeout = True, 2 * timeout
                died -= 2
                os.truncate(tr, size)
                continue
            raise CheckError("driver died outside an operation (%s)" % reason)
        k, i = int(p[0]), int(p[1])
        s = scenarios[k - 1]
        e = dict(s["ops"][i - 1], sc=s["id"], i=i, exc=False, crash=True, out={}, what=reason)
        with open(tr, "a") as f:
            f.write(json.dumps(e) + "\n")
        skip = k
        died += 1
        if died >= 6:        # enough evidence; do not spend the whole budget on a broken library
            break
    with open(tr) as f:
        for line in f:
            line = line.strip()
            if line:
                events.append(json.loads(line))
    return events


TLC_OPTS = ["-XX:+UseSerialGC", "-Xms256m", "-Xss64m"]


def tlc(module, cfg, workdir, env=None, workers=1, heap="2g", timeout=800, extra=()):
    """Run TLC on module (in spec/) with the text of a configuration; returns (output, states, distinct)."""
    d = tempfile.mkdtemp(dir=workdir)
    c = os.path.join(d, module + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    cp = ":".join([java_dir(), TLAJAR, CMJAR])
    opts = TLC_OPTS if workers == 1 else ["-XX:+UseParallelGC", "-Xss64m"]
    cmd = ["java"] + opts + ["-Xmx" + heap, "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPEC, "-cp", cp, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE", "-config", c,
           *extra, os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=d, timeout=timeout, env=dict(ENV, **(env or {})))
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    out = r.stdout
    if "-simulate" in extra:
        m = None
        for m in re.finditer(r"(\d+) states checked", out):
            pass
        st = (int(m.group(1)), 0) if m else (0, 0)
    else:
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct", out):
            pass
        st = tuple(int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
    shutil.rmtree(d, ignore_errors=True)
    return r.returncode, out, st


def tla_strings(out, prefix):
    """Strings printed with PrintT("<prefix> ...")."""
    res = []
    for line in out.splitlines():
        if line.startswith('"' + prefix + " ") and line.endswith('"'):
            s = line[len(prefix) + 2:-1]
            res.append(s.replace('\\"', '"').replace("\\\\", "\\"))
    return res


TRACE_CFG = """SPECIFICATION MSpec
CONSTANTS
  Judge <- TheJudge
  St0 <- TheSt0
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
"""


def validate(module, events, workdir, tag, chunks=None):
    """Check recorded events against the trace specification.  Returns (verdicts, states, judged)."""
    groups = []
    for e in events:
        if e["i"] == 1 or not groups:
            groups.append([])
        groups[-1].append(e)
    size = lambda g: sum(len(json.dumps(e)) for e in g)
    n = chunks or max(1, min(NCPU, len(groups)))
    total = sum(size(g) for g in groups)
    if chunks is None:
        n = max(1, min(n, total // 40000 + 1))
    bins = [[] for _ in range(n)]
    load = [0] * n
    for g in sorted(groups, key=size, reverse=True):
        k = load.index(min(load))
        bins[k].append(g)
        load[k] += size(g) + 300 * len(g)
    bins = [b for b in bins if b]

    def one(k):
        evs = [e for g in bins[k] for e in g]
        path = os.path.join(workdir, "%s.%d.ndjson" % (tag, k))
        extra = []
        for again in range(8):
            with open(path, "w") as f:
                for e in evs:
                    f.write(json.dumps(e) + "\n")
            rc, out, st = tlc(module, TRACE_CFG, workdir, {"TRACE": path}, heap="3g")
            done = tla_strings(out, "CONSUMED")
            if done and int(done[0]) == len(evs) and rc == 0:
                break
            # An observation the specification cannot even be evaluated on (a container of another shape, a value that is not a
            # number) is rejected like any other one it does not allow; the rest of the trace is judged without that scenario.
            at = [int(x) for x in re.findall(r"^/\\ l = (\d+)", out, re.M)]
            msg = out[max(0, out.find("Error:")):]
            if not at or again == 7 or not 1 <= max(at) <= len(evs) or re.search(r"OutOfMemory|StackOverflow|Parsing|semantic", msg[:3000]) or "nested" not in out:
                raise CheckError("trace validation of %s failed (rc %d):\n%s\n%s" % (module, rc, msg[:1500], out[-3000:]))
            e = evs[max(at) - 1]
            why = re.sub(r"\s+", " ", msg.split("Error: The behavior")[0])[-160:].strip()
            extra.append((e, "bad", "the observation is outside the specification (%s)" % why))
            evs = [x for x in evs if x["sc"] != e["sc"]]
            if not evs:
                done, out = ["0"], ""
                break
        skipped = {int(x) for x in tla_strings(out, "SKIP")}
        v = {}
        for s in tla_strings(out, "VERDICT"):
            j = json.loads(s)
            v[j["l"]] = j
        os.remove(path)
        return extra + [(evs[l - 1], j["v"], j["why"]) for l, j in sorted(v.items())], st, len(evs) - len(skipped)
    verdicts, states, trans, judged = [], 0, 0, 0
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for v, st, j in ex.map(one, range(len(bins))):
            verdicts += v
            states += st[1]
            trans += st[0]
            judged += j
    return verdicts, (trans, states), judged


def model_check(mc, workdir):
    """Exhaustive check of a model; returns dict with counts and the scenarios it printed."""
    cfg = mc["cfg"]
    t = time.time()
    rc, out, st = tlc(mc["module"], cfg, workdir, workers=mc.get("workers", 4), heap=mc.get("heap", "4g"),
                      extra=mc.get("extra", ()), env=mc.get("env"))
    if rc != 0:
        raise CheckError("model %s is not verified (rc %d):\n%s" % (mc["module"], rc, out[-6000:]))
    sc = tla_strings(out, "SCEN")
    return dict(module=mc["module"], transitions=st[0], states=st[1], scenarios=sorted(set(sc)), wall=round(time.time() - t, 2))


def hexf(x):
    return float(x).hex() if x == x and abs(x) != float("inf") else ("nan" if x != x else ("inf" if x > 0 else "-inf"))


def hexd(o):
    """Floats anywhere in a scenario become hexfloat text."""
    if isinstance(o, bool):
        return o
    if isinstance(o, float):
        return hexf(o)
    if isinstance(o, list):
        return [hexd(x) for x in o]
    if isinstance(o, tuple):
        return [hexd(x) for x in o]
    if isinstance(o, dict):
        return {k: hexd(v) for k, v in o.items()}
    return o


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def corruptions(events, rng, per_op=2, limit=40):
    """Corrupted copies of recorded events (one number or one flag of the output changed), to measure that the trace
    specification really constrains the outputs."""
    by = {}
    groups = []
    for e in events:
        if e["i"] == 1 or not groups:
            groups.append([])
        groups[-1].append(e)
    for g in groups:
        for k, e in enumerate(g):
            if not e["exc"] and not e["crash"] and e["out"] and len(json.dumps(g[:k + 1])) < 60000:
                by.setdefault(e["op"], []).append((g, k))
    res = []
    for op in sorted(by):
        for g, k in rng.sample(by[op], min(per_op, len(by[op]))):
            h = copy.deepcopy(g[:k + 1])
            leaves = []

            def walk(o, path):
                if isinstance(o, dict):
                    for q in sorted(o):
                        if q not in ("text", "parsed"):      # for the reader only
                            walk(o[q], path + [q])
                elif isinstance(o, list):
                    for q in range(len(o)):
                        walk(o[q], path + [q])
                elif isinstance(o, (str, bool, int)):
                    leaves.append(path)
            walk(h[k]["out"], [])
            if not leaves:
                continue
            path = rng.choice(leaves)
            o = h[k]["out"]
            for q in path[:-1]:
                o = o[q]
            x = o[path[-1]]
            if isinstance(x, bool):
                y = not x
            elif isinstance(x, int):
                y = x + 1
            elif re.match(r"^-?\d*\.?\d+(e[-+]?\d+)?$", x):
                y = repr(float(x) * 1.0625 + 1.0)
            elif re.match(r"^-?(0x|nan|inf)", x):
                v = float.fromhex(x) if "x" in x else 0.0
                y = hexf(v * 1.0625 + (1.0 if abs(v) < 1 else 0.0))
            else:
                y = x + "?"
            o[path[-1]] = y
            for e in h:
                e["sc"] = "corrupt:" + e["sc"]
            res.append((op, ".".join(map(str, path)), h))
    rng.shuffle(res)
    return res[:limit]


def trivial(e):
    return e["exc"] and False


def run_check(pid, spec):
    """spec: dict(driver, sources, trace, mc=[...], gen=function(rng, tier)->[scenario], level...)"""
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vwork-", dir=BUILD)
    try:
        rc = _run(pid, spec, tier, seed, work, t0)
    except CheckError as x:
        log("ERROR", x)
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def _run(pid, spec, tier, seed, work, t0):
    rng = random.Random("%s-%d-%s" % (pid, seed, tier))
    java_dir()
    mcs = [m for m in spec.get("mc", []) if tier == "thorough" or not m.get("thorough")]
    with cf.ThreadPoolExecutor(8) as ex:
        opt = spec.get("opt", "-O0")
        flags = list(spec.get("flags", ["-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK"]))
        fd = ex.submit(build_driver, spec["driver"], spec.get("sources", ()), opt, flags, spec.get("parts", ()), spec.get("mesh", False))
        fm = [ex.submit(model_check, m, work) for m in mcs]
        models = [f.result() for f in fm]
        exe = fd.result()
    t1 = time.time()
    scen, seen = [], set()
    for m in models:
        for s in m["scenarios"]:
            ops = json.loads(re.sub(r'"(-?\d+(?:/\d+)?)~[^"]*"', r'"\1"', s))     # drop magnitudes of derived numbers
            if isinstance(ops, dict):
                ops = [ops]
            scen.append({"id": "%s-%d" % (m["module"], len(scen)), "ops": ops})
    n_model = len(scen)
    for ops in spec["gen"](rng, tier):
        ops = hexd(ops)
        k = json.dumps(ops)
        if k in seen:
            continue
        seen.add(k)
        scen.append({"id": "gen-%d" % len(scen), "ops": ops})
    events = run_driver(exe, scen, work, "main", timeout=spec.get("timeout", 150), ranks=spec.get("ranks", 0))
    t2 = time.time()
    cor = corruptions(events, random.Random("corrupt-%d" % seed), per_op=2 if tier == "quick" else 6,
                      limit=60 if tier == "quick" else 400)
    cev = []
    for n, (op, path, h) in enumerate(cor):
        for e in h:
            e["sc"] = "corrupt-%d" % n
            cev.append(e)
    verdicts, st, judged = validate(spec["trace"], events + cev, work, "main")
    rejected_cor = {e["sc"] for e, v, w in verdicts if e["sc"].startswith("corrupt-") and v != "ok"}
    verdicts = [x for x in verdicts if not x[0]["sc"].startswith("corrupt-")]
    known = {f["id"]: f for f in known_findings() if f.get("status") != "fixed" and f["property"] == pid}
    hits, bad = {}, []
    for e, v, why in verdicts:
        if v == "known" and why in known:
            hits.setdefault(why, []).append(e)
        else:
            bad.append((e, why))
    byid = {s["id"]: s for s in scen}
    confirmed = []
    if bad and os.environ.get("VERIF_DEBUG"):
        tally = {}
        for e, why in bad:
            tally.setdefault((e["op"], str(e.get("dim", "")), why), []).append(e)
        for k, l in sorted(tally.items()):
            log("rejections", len(l), k)
            log("  e.g.", json.dumps(min(l, key=lambda e: len(json.dumps(e))))[:int(os.environ["VERIF_DEBUG"]) if os.environ["VERIF_DEBUG"] > "1" else 1500])
    if bad:
        ids = []
        for e, why in bad:
            if e["sc"] not in ids:
                ids.append(e["sc"])
        again = [byid[i] for i in ids[:25]]
        ev2 = run_driver(exe, again, work, "again", timeout=spec.get("timeout", 150), ranks=spec.get("ranks", 0))
        v2, _, _ = validate(spec["trace"], ev2, work, "again")
        keys = {(e["sc"], e["i"]) for e, v, w in v2 if not (v == "known" and w in known)}
        confirmed = [(e, w) for e, w in bad if (e["sc"], e["i"]) in keys]
        if not confirmed:
            raise CheckError("a rejection was not reproducible: %s" % (bad[0][1]))
    replays = []
    rdir = os.path.join(VERIF, "evidence", "replay")
    for n, (e, why) in enumerate(confirmed[:3]):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%d.json" % (pid, n))
        with open(p, "w") as f:
            json.dump(dict(property=pid, driver=spec["driver"], trace_spec=spec["trace"], why=why, scenario=byid[e["sc"]],
                           event=e), f, indent=1)
        replays.append((p, why, e))
    kinds = {}
    for e in events:
        k = e["op"] + ("/rejected" if e["exc"] else "")
        kinds[k] = kinds.get(k, 0) + 1
    sample_ids = rng.sample(range(len(scen)), min(3, len(scen)))
    ev = dict(
        property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"),
        coverage=dict(
            states=sum(m["states"] for m in models) + st[1],
            transitions=sum(m["transitions"] for m in models) + st[0],
            traces_validated_against_impl=len({e["sc"] for e in events}),
            samples=[scen[i] if len(json.dumps(scen[i])) < 3000 else
                     {"id": scen[i]["id"], "ops": [o["op"] for o in scen[i]["ops"]]} for i in sample_ids],
            model_runs=[{k: m[k] for k in ("module", "states", "transitions", "wall")} for m in models],
            scenarios_from_model=n_model, scenarios_generated=len(scen) - n_model,
            events_recorded=len(events), events_judged=judged, events_by_operation=kinds,
            binding_selftest=dict(corrupted=len(cor), rejected=len(rejected_cor),
                                  accepted=sorted({"%s:%s" % (op, path) for n, (op, path, h) in enumerate(cor)
                                                   if "corrupt-%d" % n not in rejected_cor})[:30]),
            phase_s=dict(build_and_models=round(t1 - t0, 1), drive=round(t2 - t1, 1), validate=round(time.time() - t2, 1)),
        ),
        assumptions=spec.get("assumptions", []) + [
            "recorded numbers are compared with exact arithmetic up to 1e-9 of the magnitude of the intermediate terms",
            "Kokkos Serial execution space (the only one installed here)"],
        wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    if hits:
        ev["coverage"]["known_findings"] = {k: len(v) for k, v in hits.items()}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(hits):
        print("KNOWN-FINDING: property=%s %s: %s (%d events)" % (pid, k, known[k]["what"], len(hits[k])))
    if confirmed:
        for p, why, e in replays:
            log("rejected: %s (op %s, scenario %s)" % (why, e["op"], e["sc"]))
        print("VIOLATION property=%s replay=%s" % (pid, replays[0][0]))
        return 1
    log("%s ok: %d scenarios, %d events, %d+%d states, %d/%d corruptions rejected, %.1f s" % (
        pid, len(scen), len(events), sum(m["states"] for m in models), st[1], len(rejected_cor), len(cor), time.time() - t0))
    return 0
