"""Scenario generators for plasticity, strains and stresses."""


def num(rng):
    return rng.choice([0.0, 1.0, -1.0, 2.5, float(rng.randint(-9, 9)), round(rng.uniform(-50, 50), 3), rng.uniform(-1, 1) * 10 ** rng.randint(-6, 6)])


def pos(rng):
    return rng.choice([1.0, 2.5, rng.uniform(.01, 10), rng.uniform(.5, 1) * 10 ** rng.randint(-6, 9)])


def pr(rng, v=None):
    """A number with a directional derivative."""
    return [num(rng) if v is None else v, round(rng.uniform(-3, 3), 2)]


def row(rng, n):
    return [pr(rng) for _ in range(n)]


def rows(rng, c, n):
    return [row(rng, n) for _ in range(c)]


def plain(rng, c, n):
    return [[num(rng) for _ in range(n)] for _ in range(c)]


def some(rng, c):
    k = list(range(c))
    rng.shuffle(k)
    return k[:rng.choice([c, c, c, max(1, c - 1), rng.randint(1, c)])]


NT = {1: 1, 2: 4, 3: 6}
NL = {2: 10, 3: 14}


def history(rng, dim, steps):
    c = rng.randint(1, 3)
    n = NT[dim]
    zero = rng.random() < .5
    init = [[0.0] * NL[dim] for _ in range(c)] if zero else plain(rng, c, NL[dim])
    ops = [dict(op="state", S="c", rows=init), dict(op="state", S="p", rows=init if rng.random() < .7 else plain(rng, c, NL[dim]))]
    H = rng.choice([0.0, pos(rng)])
    for _ in range(steps):
        ops.append(dict(op="flow", dim=dim, cur="c", N="N", dev=[[rng.uniform(-100, 100) * z for _ in range(n)] for z in [rng.choice([1, 1, 1e-3, 1e4]) for _ in range(c)]]))
        ops.append(dict(op="gamma", S="c", g=[abs(num(rng)) if rng.random() < .8 else 0.0 for _ in range(c)]))
        if rng.random() < .3:
            H = pos(rng)
        p = rng.random() < .7
        ops.append(dict(op="plastic" if p else "elastic", dim=dim, cur="c", prev="p", N="N", H=H, cells=some(rng, c)))
        for w in rng.sample(["psP", "bsP", "psE", "bsE"], 2):
            ops.append(dict(op="resid", what=w, dim=dim, cur="c", prev="p", N="N", H=H))
        if rng.random() < .8:
            ops.append(dict(op="advance", prev="p", cur="c"))
    return ops


def j2(rng, tier):
    out = []
    q = tier == "quick"
    for _ in range(60 if q else 600):
        out.append(history(rng, rng.choice([2, 3]), rng.randint(1, 4 if q else 8)))
    for _ in range(260 if q else 4000):
        dim, c = rng.choice([2, 3]), rng.randint(1, 3)
        n, nl = NT[dim], NL[dim]
        k = rng.random()
        o = dict(dim=dim, cells=some(rng, c))
        if k < .5:
            o.update(op="residual", what=rng.choice(["psP", "bsP", "psE", "bsE"]), loc=rows(rng, c, nl), prev=rows(rng, c, nl), N=rows(rng, c, n), H=pr(rng), r0=rows(rng, c, nl))
        elif k < .75:
            o.update(op="normal", dev=[[pr(rng, rng.uniform(-9, 9) * z) for _ in range(n)] for z in [10.0 ** rng.choice([-6, -2, 0, 3, 6]) for _ in range(c)]],
                     loc=rows(rng, c, nl) if rng.random() < .6 else [[[0.0, 0.0] if rng.random() < .9 else pr(rng) for _ in range(nl)] for _ in range(c)], N0=rows(rng, c, n), n0=row(rng, c))
        elif k < .85:
            o.update(op="misfit", a=rows(rng, c, nl), b=rows(rng, c, nl), r0=rows(rng, c, n))
        else:
            w = rng.choice(["accum", "mult", "strain", "backstress"])
            o.update(op="get", what=w, loc=rows(rng, c, nl), r0=row(rng, c) if w in ("accum", "mult") else rows(rng, c, n))
        out.append([o])
    return out


def moduli(rng):
    if rng.random() < .5:
        return dict(op="moduli", E=pos(rng), v=rng.choice([0.0, .3, .49, .4999, -.5, round(rng.uniform(-.99, .499), 3)]))
    q = {}
    if rng.random() < .9:
        q["Youngs Modulus"] = dict(t="d", v=pos(rng)) if rng.random() < .93 else rng.choice([dict(t="i", i=3), dict(t="s", s="1")])
    if rng.random() < .9:
        q["Poissons Ratio"] = dict(t="d", v=round(rng.uniform(-.9, .49), 3)) if rng.random() < .93 else dict(t="i", i=0)
    m = {rng.choice(["Isotropic Linear Elastic"] * 9 + ["Orthotropic"]): dict(t="l", l=q)}
    if rng.random() < .3:
        m["Other"] = dict(t="l", l={"Youngs Modulus": dict(t="d", v=9.0)})
    return dict(op="modlist", what=rng.choice("KG"), p={rng.choice(["Material Model"] * 9 + ["Material"]): dict(t="l", l=m)})


def elastic(rng, tier):
    out = []
    for _ in range(520 if tier == "quick" else 6000):
        dim, c = rng.choice([1, 2, 3]), rng.randint(1, 3)
        n = NT[dim]
        o = dict(dim=dim, cells=some(rng, c))
        k = rng.random()
        if k < .12:
            o.update(op="devstrain", e=rows(rng, c, n), r0=rows(rng, c, n))
        elif k < .27:
            o.update(op="devstress", G=pr(rng), e=rows(rng, c, n), r0=rows(rng, c, n))
        elif k < .45:
            o.update(op="cauchy", K=pr(rng), G=pr(rng), e=rows(rng, c, n), r0=rows(rng, c, n))
        elif k < .58:
            o.update(op="work", K=pr(rng), G=pr(rng), e=rows(rng, c, n), dev=rows(rng, c, n), r0=row(rng, c))
        elif k < .8:
            d = rng.choice([2, 3])
            th = rng.random() < .7
            b = [rng.uniform(0, 1) for _ in range(d + 1)] if rng.random() < .6 else [1 / (d + 1)] * (d + 1)
            o.update(op="estrain", dim=d, thermal=th, alpha=num(rng), Tref=num(rng), scale=rng.choice([1.0, pos(rng)]), basis=b,
                     glob=rows(rng, c, (d + 1) * (d + (2 if th else 1))), loc=rows(rng, c, NL[d]), e=rows(rng, c, NT[d]), r0=rows(rng, c, NT[d]))
        elif k < .9:
            o.update(op="stab", scale=rng.choice([1.0, num(rng)]), G=pos(rng), vol=[pr(rng, pos(rng)) for _ in range(c)], grad=rows(rng, c, dim), proj=rows(rng, c, dim), r0=rows(rng, c, dim))
        else:
            o = moduli(rng)
        out.append([o])
    return out
