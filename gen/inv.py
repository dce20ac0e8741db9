"""Scenario generators for invariants and norms."""
from plast import num, pos, pr, row, rows, some

NV = {1: 1, 2: 3, 3: 6}


def tensor(rng, n):
    k = rng.random()
    if k < .15:
        return [[0.0, round(rng.uniform(-3, 3), 2)] for _ in range(n)]
    if k < .35:      # many coincidences
        return [[float(rng.randint(-2, 2)), round(rng.uniform(-3, 3), 2)] for _ in range(n)]
    if k < .5:       # few components
        return [[rng.uniform(-9, 9) if rng.random() < .4 else 0.0, round(rng.uniform(-3, 3), 2)] for _ in range(n)]
    if k < .6:       # strains
        return [[rng.uniform(-1, 1) * 1e-4, round(rng.uniform(-3, 3), 2)] for _ in range(n)]
    s = 10 ** rng.choice([0, 0, 0, 3, 6])
    return [[rng.uniform(-9, 9) * s, round(rng.uniform(-3, 3), 2)] for _ in range(n)]


def tensors(rng, c, n):
    return [tensor(rng, n) for _ in range(c)]


def D(v):
    return dict(t="d", v=v)


def barlat(rng):
    a = dict()
    ident = rng.random() < .4
    for k in ("T1", "T2"):
        for i in range(6):
            a[k + str(i)] = dict(t="a", a=[(1.0 if i == j else 0.0) if ident else (rng.choice([0.0, 1.0, -1.0, round(rng.uniform(-2, 2), 2)])) for j in range(6)])
    if rng.random() < .6:
        a["Barlat Exponent"] = dict(t="i", i=rng.choice([2, 4, 6, 8]))
    if rng.random() < .6:
        a["Reference Weight"] = D(pos(rng))
    if rng.random() < .08:
        del a[rng.choice([k for k in a if k[0] == "T"])]
    return a


def norm(rng):
    p = {}
    if rng.random() < .96:
        p["Exponent"] = D(rng.choice([1.0, 2.0, 3.0, 4.0, 6.0, 8.0, 1.5, 2.5, 12.0]))
    k = rng.random()
    if k < .3:
        pass
    elif k < .38:
        p["Normalize"] = dict(t="l", l={"Type": dict(t="s", s=rng.choice(["None", "barlat", ""]))})
    elif k < .42:
        p["Normalize"] = dict(t="l", l={})
    elif k < .7:
        q = {}
        if rng.random() < .7:
            q["Reference Weight"] = D(pos(rng))
        if rng.random() < .7:
            q["Scalar Product Weight"] = D(pos(rng))
        n = {"Type": dict(t="s", s="Scalar")}
        if rng.random() < .9:
            n["Scalar"] = dict(t="l", l=q)
        if rng.random() < .2:
            n["Barlat"] = dict(t="l", l={"Reference Weight": D(3.0)})
        p["Normalize"] = dict(t="l", l=n)
    else:
        p["Normalize"] = dict(t="l", l={"Type": dict(t="s", s="Barlat"), "Barlat": dict(t="l", l=barlat(rng))})
    return p


def invariants(rng, tier):
    out = []
    for _ in range(600 if tier == "quick" else 7000):
        dim, c = rng.choice([1, 2, 3]), rng.randint(1, 3)
        n = NV[dim]
        o = dict(dim=dim, cells=some(rng, c), r0=row(rng, c))
        k = rng.random()
        if k < .12:
            o.update(op="mises", v=tensors(rng, c, n))
        elif k < .4:
            o.update(op="principal", v=tensors(rng, c, n), r0=rows(rng, c, dim), sweeps=rng.choice([6, 6, 24]), strain=rng.random() < .5)
        elif k < .52:
            o.update(op="tensile", v=[[pr(rng) for _ in range(dim)] for _ in range(c)], lam=num(rng), mu=pos(rng))
        elif k < .6:
            m = {1: 1, 2: 4, 3: 6}[dim]
            o.update(op="ddot", a=rows(rng, c, m), b=rows(rng, c, m))
        elif k < .66:
            m = rng.choice([1, 2, 3, 4, 6])
            o.update(op="dot", a=rows(rng, c, m), b=rows(rng, c, m))
        elif k < .74:
            o.update(op="vpnorm", v=tensors(rng, c, rng.choice([1, 2, 3, 6])), p=rng.choice([1, 2, 3, 4, 6, 10]), vol=[pr(rng, pos(rng)) for _ in range(c)])
        else:
            g = rng.randint(0, 4)
            o.update(op="norm", p=norm(rng), v=tensors(rng, c, n), vol=[pr(rng, pos(rng)) for _ in range(c)], cells=list(range(c)),
                     total=pos(rng), grad=[num(rng) for _ in range(g)])
        out.append([o])
    return out
