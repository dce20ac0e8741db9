"""Scenario generators for the vector and workset driver."""
from sparse import val, nz


def vec(rng, n):
    return [val(rng) for _ in range(n)]


EXTR = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 2), (4, 1), (4, 3)]
EXTRN = [(1, 1, 0), (2, 1, 0), (3, 2, 0), (3, 1, 2), (4, 3, 0), (4, 2, 1), (4, 1, 3)]
NAN, INF = float("nan"), float("inf")


def vectors(rng, tier):
    out = []
    names = ["x", "y", "z", "s", "e"]
    for t in range(160 if tier == "quick" else 1500):
        n = rng.choice([1, 2, 3, 5, 8]) if t % 12 else rng.choice([40, 300])
        sign = rng.choice(["any", "pos", "neg"])
        f = {"any": val, "pos": lambda r: abs(nz(r)), "neg": lambda r: -abs(nz(r))}[sign]
        ops = [dict(op="vec", x=k, v=[f(rng) for _ in range(n)]) for k in ("x", "y", "z")]
        m = rng.choice([1, 2, n + 1, max(1, n - 1), 2 * n])
        ops += [dict(op="vec", x="s", v=vec(rng, m)), dict(op="vec", x="e", v=[])]

        def nm(odd=.15):
            return rng.choice(["s", "e"]) if rng.random() < odd else rng.choice("xyz")

        def al(bad=.1):
            return rng.choice([NAN, INF, -INF]) if rng.random() < bad else val(rng)
        for _ in range(rng.randint(4, 10)):
            o = rng.choice("dot norm fill fillat copy scale axpy update sum max min extract random".split())
            if o == "dot":
                ops.append(dict(op=o, x=nm(), y=nm()))
            elif o in ("norm", "sum", "max", "min"):
                ops.append(dict(op=o, x=nm()))
            elif o in ("fill", "scale"):
                ops.append(dict(op=o, alpha=al(), x=nm()))
            elif o == "fillat":
                x = nm(.1)
                sz = n if x in "xyz" else (m if x == "s" else 0)
                k = rng.randint(0, sz)
                od = rng.sample(range(sz), k)
                if od and rng.random() < .2:
                    od += [od[0]]
                table = {}
                v = [table.setdefault(i, val(rng)) for i in od]
                if rng.random() < .15 and v:
                    v = v[:-1] if rng.random() < .5 else v + [1.0]
                ops.append(dict(op=o, alpha=al(), ord=od, val=v, x=x))
            elif o == "copy":
                ops.append(dict(op=o, x=nm(), y=nm()))
            elif o == "axpy":
                ops.append(dict(op=o, alpha=val(rng), x=nm(), y=nm()))
            elif o == "update":
                ops.append(dict(op=o, alpha=al(), beta=al(), x=nm(), y=nm()))
            elif o == "extract":
                st, of = rng.choice(EXTR)
                k = rng.choice([0, 1, 2, 5])
                lx = 0 if rng.random() < .1 else (k + rng.choice([0, 0, 1, 2, k]) if k else 1) * st + rng.choice([0, 0, 1])
                ops += [dict(op="vec", x="f", v=vec(rng, lx)), dict(op="vec", x="g", v=vec(rng, k)),
                        dict(op="extract", stride=st, off=of, x="f", y="g")]
            else:
                lo = val(rng)
                hi = lo + abs(val(rng))
                q = dict(op=o, lo=lo, hi=hi, x=nm())
                ops.append(q)
                if rng.random() < .6:
                    ops.append(dict(q, x=nm()))
        out.append(ops)
    return out


def ws(rng, name, c, n):
    return dict(op="ws", x=name, d=[c, n], v=[vec(rng, n) for _ in range(c)])


def arr(rng, name, c, n, m, f=None):
    return dict(op="arr", x=name, d=[c, n, m], v=[f() if f else [vec(rng, m) for _ in range(n)] for _ in range(c)])


def regular(rng, n):
    """A matrix with safe leading minors: diagonally dominant, or a product of unit triangular factors and a diagonal."""
    k = rng.random()
    if k < .5:
        a = [[round(rng.uniform(-3, 3), 4) if rng.random() < .8 else 0.0 for _ in range(n)] for _ in range(n)]
        for i in range(n):
            a[i][i] = rng.choice([-1, 1]) * (sum(abs(x) for j, x in enumerate(a[i]) if j != i) + rng.uniform(.5, 4))
        return a
    L = [[1.0 if i == j else (float(rng.randint(-1, 1)) if j < i else 0.0) for j in range(n)] for i in range(n)]
    U = [[rng.choice([-2.0, 1.0, .5, 4.0]) if i == j else (float(rng.randint(-1, 1)) if j > i else 0.0) for j in range(n)] for i in range(n)]
    return [[sum(L[i][k] * U[k][j] for k in range(n)) for j in range(n)] for i in range(n)]


def worksets(rng, tier):
    out = []
    for t in range(170 if tier == "quick" else 1500):
        c = rng.choice([1, 1, 2, 3, 4])
        r, k = rng.randint(1, 5), rng.randint(1, 5)
        kind = t % 6
        if kind == 0:
            st, of = rng.choice(EXTR)
            n = rng.randint(1, 4)
            ops = [ws(rng, "y", c, (n + rng.choice([0, 0, 1, n])) * st + rng.choice([0, 0, 1])), ws(rng, "x", c, n), ws(rng, "u", c, n)]
            for _ in range(rng.randint(2, 5)):
                ops.append(rng.choice([dict(op="waxpy", alpha=val(rng), stride=st, off=of, x="x", y="y"),
                                       dict(op="wextract", stride=st, off=of, x="y", y="u"),
                                       dict(op="wupdate", alpha=val(rng), x="x", beta=val(rng), y="u"),
                                       dict(op="wupdate", alpha=val(rng), x="x", beta=val(rng), y="y"),
                                       dict(op="wupdate", alpha=val(rng), x="u", beta=val(rng), y="u"),
                                       dict(op="wscale", alpha=val(rng), x="u"), dict(op="wfill", alpha=val(rng), x="x")]))
            if rng.random() < .4:
                ops += [ws(rng, "q", c + 1, n), dict(op="waxpy", alpha=val(rng), stride=st, off=of, x="q", y="y"),
                        dict(op="wupdate", alpha=val(rng), x="q", beta=1.0, y="x")]
        elif kind == 1:
            st, dm, of = rng.choice(EXTRN)
            n = rng.randint(1, 4)
            ops = [ws(rng, "y", c, (n + rng.choice([0, 0, 1])) * st), ws(rng, "x", c, n * dm + rng.choice([0, 0, 1])),
                   dict(op="wextractn", n=rng.choice([n, n, n - 1]), stride=st, dim=dm, off=of, x="y", y="x"),
                   dict(op="wfill", alpha=val(rng), x="y"), dict(op="wextractn", n=n, stride=st, dim=dm, off=of, x="y", y="x")]
        elif kind == 2:
            ops = [arr(rng, "a", c, r, k), ws(rng, "x", c, k + rng.choice([0, 0, 2])), ws(rng, "y", c, r + rng.choice([0, 0, 1])),
                   ws(rng, "p", c, r), ws(rng, "q", c, k)]
            for _ in range(rng.randint(2, 4)):
                if rng.random() < .5:
                    ops.append(dict(op="mtv", trans=rng.choice(["N", "n", "N", "X"]), alpha=val(rng), a="a", x="x",
                                    beta=rng.choice([0.0, 1.0, val(rng)]), y="y"))
                else:
                    ops.append(dict(op="mtv", trans=rng.choice(["T", "t", "T", "", "C"]), alpha=val(rng), a="a", x="p",
                                    beta=rng.choice([0.0, 1.0, val(rng)]), y="q"))
            if rng.random() < .5:
                bad = rng.choice(["x", "y", "a"])
                ops += [ws(rng, "e", 0 if rng.random() < .4 else c + 1, k), arr(rng, "b", 0, r, k)]
                ops.append(dict(op="mtv", trans="N", alpha=1.0, a="b" if bad == "a" else "a", x="e" if bad == "x" else "x", beta=1.0,
                                y="e" if bad == "y" else "y"))
        elif kind == 3:
            n = rng.choice([1, 2, 3, 4, 5, 6, 10])
            c = 1 if n > 6 else rng.randint(1, 3)
            ops = [arr(rng, "a", c, n, n, lambda: regular(rng, n)), arr(rng, "b", c, n, n), ws(rng, "w", c, 2)]
            if rng.random() < .25:
                ops += [arr(rng, "e", c + 1, n, n), dict(op="inverse", n=c, r=n, a="a", b="e"), dict(op="inverse", n=c + 1, r=n, a="a", b="b")]
            ops += [dict(op="inverse", n=c, r=n, a="a", b="b")]
            if n in (1, 2, 3, 4, 6):
                ops += [dict(op="identity", n=c, r=n, c=n, a="a"), dict(op="multiply", n=c, alpha=2.0, a="b", b="a", beta=val(rng), c="b")][:1]
        elif kind == 4:
            r, k = rng.choice([(1, 1), (2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (6, 6)])
            ops = [arr(rng, "a", c, r + rng.choice([0, 0, 1]), k + rng.choice([0, 0, 2])), arr(rng, "z", 0, r, k)]
            ops += [dict(op="afill", n=rng.choice([c, c, max(1, c - 1)]), r=r, c=k, alpha=val(rng), a="a"),
                    dict(op="identity", n=rng.choice([c, c, c + 1]), r=r, c=k, a="a"),
                    dict(op="afill", n=rng.choice([0, 1]), r=r, c=k, alpha=val(rng), a=rng.choice(["a", "z"])),
                    dict(op="identity", n=0, r=r, c=k, a="z")]
            d = ops[0]["d"]
            ops += [arr(rng, "b", c, d[1], d[2]), dict(op="aupdate", n=c, alpha=val(rng), a="a", beta=rng.choice([0.0, 1.0, val(rng)]), b="b"),
                    dict(op="aupdate", n=rng.choice([c, 0, max(1, c - 1)]), alpha=val(rng), a="b", beta=val(rng), b="b"),
                    arr(rng, "q", c, d[1] + 1, d[2]), dict(op="aupdate", n=c, alpha=1.0, a=rng.choice(["q", "a"]), beta=1.0, b="q"),
                    arr(rng, "q", c, d[1], d[2] + 1), dict(op="aupdate", n=c, alpha=1.0, a=rng.choice(["q", "a"]), beta=1.0, b="q")]
        else:
            m = rng.randint(1, 4)
            ops = [arr(rng, "a", c, r, k), arr(rng, "b", c, k, m), arr(rng, "c", c, r, m)]
            for _ in range(rng.randint(1, 3)):
                ops.append(dict(op="multiply", n=c, alpha=val(rng), a="a", b="b", beta=rng.choice([0.0, 1.0, val(rng)]), c="c"))
            if rng.random() < .6:
                q = rng.choice("abcn")
                if q == "n":
                    ops.append(dict(op="multiply", n=c + 1, alpha=1.0, a="a", b="b", beta=1.0, c="c"))
                else:
                    d = dict(a=[c, r, k], b=[c, k, m], c=[c, r, m])[q]
                    j = rng.randrange(3)
                    d[j] += rng.choice([1, -1, 1])
                    ops += [arr(rng, "e", *d), dict(op="multiply", n=c, alpha=1.0, a="e" if q == "a" else "a", b="e" if q == "b" else "b",
                                                    beta=1.0, c="e" if q == "c" else "c")]
        out.append(ops)
    # every 2x2 matrix over {-1,0,1} that eliminates without pivoting
    cells = [[[float(a), float(b)], [float(p), float(q)]] for a in (-1, 1) for b in (-1, 0, 1) for p in (-1, 0, 1) for q in (-1, 0, 1)
             if a * q - b * p]
    out.append([dict(op="arr", x="a", d=[len(cells), 2, 2], v=cells), arr(rng, "b", len(cells), 2, 2),
                dict(op="inverse", n=len(cells), r=2, a="a", b="b")])
    return out
