"""Scenario generators for Newton-Raphson bookkeeping, time integrators, rocket ballistics and saved states."""
from inv import D
from plast import num


def crit(rng):
    t = rng.choice(["absolute residual norm", "relative residual norm", "residual norm", "displacement norm", "absolute  residual norm", "", "absolute residual norm ", "relative", "absoluteresidual norm"])
    k = rng.random()
    t = t.upper() if k < .3 else t.title() if k < .5 else "".join(rng.choice([c, c.upper()]) for c in t) if k < .8 else t
    return dict(op="nrcrit", chars=list(t))


def norm(rng):
    return rng.choice([0.0, 1.0, 10 ** rng.uniform(-12, 6), 10 ** rng.uniform(-3, 3), 10 ** rng.uniform(-3, 3), 10 ** rng.uniform(-3, 3)])


def newton(rng, tier):
    out = []
    for _ in range(300 if tier == "quick" else 5000):
        ops = [crit(rng) for _ in range(2)]
        names = ["a", "b"][:rng.randint(1, 2)]
        it = {n: 0 for n in names}
        for n in names:
            ops.append(dict(op="nrnew", N=n))
        for _ in range(rng.randint(3, 16)):
            n = rng.choice(names)
            k = rng.random()
            if k < .5:                     # one iteration of a solve
                if rng.random() < .85:
                    it[n] = it[n] + 1 if it[n] or rng.random() < .9 else 0
                    x = norm(rng)
                    ops.append(dict(op="nrset", N=n, what="cur", v=x if rng.random() < .95 else rng.choice(["nan", "inf", "-inf"])))
                ops.append(dict(op="nrmeas", N=n, what=rng.choice(["rel", "abs"])))
                ops.append(dict(op="nrset", N=n, what="it", v=it[n]))
            elif k < .56:
                it[n] = 0
                ops.append(dict(op="nrset", N=n, what="it", v=0))
            elif k < .62:
                ops.append(dict(op="nrset", N=n, what="ref", v=norm(rng) if rng.random() < .8 else rng.choice(["nan", "inf"])))
            elif k < .7:
                ops.append(dict(op="nrset", N=n, what="stop", v=rng.randint(0, 5)))
            elif k < .75:
                ops.append(dict(op="nrset", N=n, what="write", v=rng.random() < .6))
            elif k < .95:
                ops.append(dict(op="nrprint", N=n, what=rng.choice(["stop", "stop", "diag", "diag", "head"]), file=rng.choice(["open", "open", "open", "closed"])))
            else:
                it[n] = 0
                ops.append(dict(op="nrnew", N=n))
        out.append(ops)
    return out


def integ(rng, name):
    if rng.random() < .6:
        p = {"Newmark Gamma": D(rng.choice([.5, .5, .6, rng.uniform(.3, 1)])), "Newmark Beta": D(rng.choice([.25, .25, 1 / 6, .5, rng.uniform(.1, 1)]))}
        for k in list(p):
            if rng.random() < .08:
                if rng.random() < .5:
                    del p[k]
                else:
                    p[k] = {"t": "i", "i": 1}
        return dict(op="tnew", T=name, kind="newmark", p=p), len(p) == 2 and all(v["t"] == "d" for v in p.values())
    p = {} if rng.random() < .3 else {"Trapezoid Alpha": D(rng.choice([.5, 1.0, .75, rng.uniform(.1, 1)]))} if rng.random() < .9 else {"Trapezoid Alpha": {"t": "i", "i": 1}}
    return dict(op="tnew", T=name, kind="trap", p=p), all(v["t"] == "d" for v in p.values())


def integrators(rng, tier):
    out = []
    for _ in range(300 if tier == "quick" else 5000):
        ops, ts = [], {}
        n = rng.randint(1, 4)
        vec = lambda: [num(rng) for _ in range(n)]
        for name in ["a", "b"]:
            o, fine = integ(rng, name)
            ops.append(o)
            if fine:
                ts[name] = o["kind"]
        if not ts:
            out.append(ops)
            continue
        ops.append(dict(op="hnew", H="h", u=vec(), v=vec(), a=vec()))
        for _ in range(rng.randint(2, 8)):
            t = rng.choice(sorted(ts))
            dt = rng.choice([1.0, .1, 1e-3, rng.uniform(.01, 3), 10 ** rng.uniform(-6, 3)])
            k = rng.random()
            if k < .25:
                ops.append(dict(op="tgrad", T=t, dt=dt))
            elif k < .65:
                ops.append(dict(op="tval", T=t, what=rng.choice(["v", "a"]), dt=dt, x=[vec() for _ in range(6)]))
            else:
                ops.append(dict(op="hstep", T=t, H="h", u=vec(), dt=rng.choice([1.0, .1, .5, rng.uniform(.05, 3)])))
        out.append(ops)
    return out


def geom(rng):
    r = rng.choice([.075, rng.uniform(.01, 1)])
    return dict(geom=[rng.uniform(1, 5), rng.choice([.65, rng.uniform(.1, 5)]), r], rate=[rng.choice([.005, rng.uniform(.0005, .02)]), rng.uniform(-1, 1)],
                density=rng.choice(["none", 1744.0, rng.uniform(500, 3000)]))


def rocket(rng):
    """A rocket whose pressure stays within reach of the reference pressure, where Newton's method converges."""
    import math
    alpha = rng.choice([.38, .38, 0.0, rng.uniform(0, .7)])
    vel, throat, pref = rng.choice([1554.5, rng.uniform(500, 3000)]), rng.choice([.04, rng.uniform(.01, .2)]), rng.choice([3.5e6, rng.uniform(1e5, 1e7)])
    g = geom(rng)
    ratio = 10 ** rng.uniform(-1.5, 2) if rng.random() < .5 else rng.uniform(.3, 1.8)
    at = math.pi * throat ** 2 / 4
    g["density"] = ratio ** (1 - alpha) * at * pref / vel / (2 * math.pi * g["geom"][1] * g["geom"][2] * g["rate"][0])
    n = rng.randint(1, 12)
    dt = min(rng.choice([.1, .25, rng.uniform(.01, 1)]), .03 * g["geom"][2] / g["rate"][0] / max(1, ratio ** alpha))
    total = rng.choice([n * dt, (n - rng.uniform(.2, .8)) * dt])
    return dict(alpha=alpha, dt=dt, pref=pref, total=total, throat=throat, amb=rng.choice([101.325, rng.uniform(0, 2e5)]), vel=vel, tol=rng.choice([1e-8, 1e-6, 1e-4])), g


def rockets(rng, tier):
    out = []
    for _ in range(120 if tier == "quick" else 2500):
        ops = [dict(op="gnew", G="g")]
        for _ in range(rng.randint(0, 3)):
            ops.append(dict(op="gupdate", G="g", what=rng.choice(["init", "update"]), **geom(rng)))
            for _ in range(rng.randint(0, 3)):
                ops.append(dict(op="gevolve", G="g", dt=rng.choice([.1, rng.uniform(.01, 2)]), m=rng.uniform(.1, 3)))
        p, g = rocket(rng)
        given = {k: v for k, v in p.items() if rng.random() < .6 or k == "tol"}
        ops.append(dict(op="rnew", R="r", G="g", p=given))
        for k in p:
            if k not in given:
                ops.append(dict(op="rset", R="r", what=k, v=p[k]))
        if rng.random() < .3:
            ops.append(dict(op="rset", R="r", what="itr", v=float(rng.choice([100, 500, 2000]))))
        for _ in range(rng.choice([1, 1, 2])):
            ops.append(dict(op="rinit", R="r", G="g", **g))
            ops.append(dict(op="rsolve", R="r", G="g"))
            if rng.random() < .5:
                ops.append(dict(op="rout", R="r", on=rng.random() < .8))
            if rng.random() < .3:
                k = rng.choice(["amb", "dt"])
                ops.append(dict(op="rset", R="r", what=k, v=p[k] * rng.uniform(.5, .9)))
        if rng.random() < .3 and p["total"] / p["dt"] < 4:
            ops.append(dict(op="rsolve", R="r", G="g"))     # the chamber goes on burning from where it was
        out.append(ops)
    return out


def states(rng, tier):
    out = []
    for _ in range(300 if tier == "quick" else 5000):
        names = ["a", "b"]
        ops = [dict(op="dnew", D=n) for n in names]
        saved = {n: 0 for n in names}
        for _ in range(rng.randint(3, 16)):
            n = rng.choice(names)
            k = rng.random()
            if k < .4:
                kind = rng.choice("svma")
                v = {"s": lambda: num(rng), "v": lambda: [num(rng) for _ in range(rng.randint(1, 3))], "m": lambda: [[num(rng), num(rng)] for _ in range(rng.randint(1, 2))],
                     "a": lambda: [[[num(rng)], [num(rng)]] for _ in range(rng.randint(1, 2))]}[kind]()
                ops.append(dict(op="dset", D=n, kind=kind, key=rng.choice(["x", "y", "stress"]), v=v))
            elif k < .45:
                ops.append(dict(op="ddel", D=n, kind=rng.choice("svma"), key=rng.choice(["x", "y"])))
            elif k < .62:
                ops.append(dict(op="dsave", D=n))
                saved[n] += 1
            elif k < .66:
                ops.append(dict(op="dclear", D=n))
                saved[n] = 0
            elif k < .9:
                ops.append(dict(op="dget", D=n, cur=rng.random() < .2, k=rng.choice([0, -1, saved[n] - 1, saved[n], rng.randint(-2, 6), rng.randint(0, max(0, saved[n] - 1))])))
            elif k < .95:
                ops.append(dict(op="dcopy", D=n, **{"from": rng.choice(names)}))
                saved[n] = saved[ops[-1]["from"]]
            else:
                f = rng.choice(names)
                i = rng.randint(0, max(0, saved[f] - 1))
                ops.append(dict(op="dtake", D=n, k=i, **{"from": f}))
                saved[n] = 0
        for n in names:
            for i in range(saved[n]):
                ops.append(dict(op="dget", D=n, cur=False, k=i))
        out.append(ops)
    for _ in range(20 if tier == "quick" else 100):
        out.append([dict(op="soln", x=[[[num(rng) for _ in range(c)] for _ in range(r)] for r, c in [(rng.randint(1, 3), rng.randint(1, 3)) for _ in range(rng.randint(0, 3))]])])
    return out
