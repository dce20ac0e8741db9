"""Scenario generators for the sparse block matrix driver."""
import random


def val(rng, kind=None):
    k = kind or rng.choice("iiiffs")
    if k == "i":
        return float(rng.randint(-9, 9))
    if k == "f":
        return round(rng.uniform(-20, 20), 6)
    return rng.choice([1e-7, -3e-6, 1e6, -2.5e5, 0.0, 0.5, -0.25, 1.0]) * rng.choice([1, 1, 3])


def nz(rng):
    x = 0.0
    while x == 0.0:
        x = val(rng)
    return x


def pattern(rng, nr, nc, dens=None, full_diag=False, unsorted=False):
    dens = rng.choice([0.15, 0.4, 0.7, 1.0]) if dens is None else dens
    rows = []
    for r in range(nr):
        cs = [c for c in range(nc) if rng.random() < dens or (full_diag and c == r)]
        if unsorted:
            rng.shuffle(cs)
        rows.append(cs)
    return rows


def mat(rng, name, nr, nc, rbs, cbs, rows=None, values=None, unsorted=False, **kw):
    rows = pattern(rng, nr, nc, unsorted=unsorted, **kw) if rows is None else rows
    rm, ci, en = [0], [], []
    for r in range(nr):
        for c in rows[r]:
            ci.append(c)
            for k in range(rbs * cbs):
                en.append(val(rng) if values is None else values(r * rbs + k // cbs, c * cbs + k % cbs))
        rm.append(len(ci))
    return dict(op="mat", A=name, rows=nr * rbs, cols=nc * cbs, rbs=rbs, cbs=cbs, rm=rm, ci=ci, en=en)


def shape(name, rows, cols, rbs, cbs):
    return dict(op="shape", A=name, rows=rows, cols=cols, rbs=rbs, cbs=cbs)


def vec(rng, name, n, f=val):
    return dict(op="vec", x=name, v=[f(rng) for _ in range(n)])


BS = [1, 1, 2, 2, 3, 4, 5, 6]


def products(rng, tier):
    n = 90 if tier == "quick" else 700
    out = []
    for _ in range(n):
        rbs, cbs, kbs = rng.choice(BS), rng.choice(BS), rng.choice(BS)
        nr, nc, nk = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
        if rbs * nr > 12:
            nr = 2
        if cbs * nc > 12:
            nc = 2
        ops = [mat(rng, "A", nr, nc, rbs, cbs, unsorted=rng.random() < .4),
               vec(rng, "x", nc * cbs), vec(rng, "y", nr * rbs), dict(op="mtv", A="A", x="x", y="y")]
        if rng.random() < .5:
            ops.append(dict(op="mtv", A="A", x="x", y="y"))
        ops += [mat(rng, "B", nc, nk, cbs, kbs, unsorted=rng.random() < .4),
                shape("C", nr * rbs, nk * kbs, rbs, kbs), dict(op="mmm", A="A", B="B", C="C")]
        if rng.random() < .4:   # C reused as an operand and as a target
            ops += [vec(rng, "z", nk * kbs), vec(rng, "w", nr * rbs), dict(op="mtv", A="C", x="z", y="w"),
                    dict(op="mmm", A="A", B="B", C="C")]
        # A - B with B one row per node at an offset, or with unit blocks
        off = rng.randrange(rbs)
        if rbs == 1:
            ops += [mat(rng, "D", nr, nc, 1, cbs, unsorted=rng.random() < .4), dict(op="minus", A="A", B="D", off=0)]
        else:
            ops += [mat(rng, "D", nr, nc, 1, cbs, unsorted=rng.random() < .4), dict(op="minus", A="A", B="D", off=off)]
        if rng.random() < .5:
            ops.append(dict(op="mtv", A="A", x="x", y="y"))
        out.append(ops)
    for _ in range(n // 3):      # dimension mismatches
        rbs, cbs = rng.choice(BS), rng.choice(BS)
        nr, nc = rng.randint(1, 3), rng.randint(1, 3)
        a = mat(rng, "A", nr, nc, rbs, cbs)
        k = rng.choice(["x", "y", "xy", "in", "outr", "outc", "minus", "swap"])
        if k in ("x", "y", "xy", "swap"):
            dx = rng.choice([-1, 1, cbs]) if "x" in k else 0
            dy = rng.choice([-1, 1, rbs]) if "y" in k else 0
            lx, ly = nc * cbs + dx, nr * rbs + dy
            if k == "swap":
                lx, ly = nr * rbs, nc * cbs
            out.append([a, vec(rng, "x", max(0, lx)), vec(rng, "y", max(0, ly)), dict(op="mtv", A="A", x="x", y="y")])
        elif k == "minus":
            out.append([a, mat(rng, "B", nr, nc + rng.choice([1, 2]), 1, cbs), dict(op="minus", A="A", B="B", off=0)])
        else:
            nk, kbs = rng.randint(1, 3), rng.choice(BS)
            b = mat(rng, "B", nc + (1 if k == "in" else 0), nk, cbs, kbs)
            c = shape("C", (nr + (1 if k == "outr" else 0)) * rbs, (nk + (1 if k == "outc" else 0)) * kbs, rbs, kbs)
            out.append([a, b, c, dict(op="mmm", A="A", B="B", C="C")])
    # inner block shapes need not agree: only the matrix shapes have to
    for _ in range(n // 6):
        rbs, kbs = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
        nr, nk = rng.randint(1, 3), rng.randint(1, 3)
        ops = [mat(rng, "A", nr, 2, rbs, 3), mat(rng, "B", 3, nk, 2, kbs), shape("C", nr * rbs, nk * kbs, rbs, kbs),
               dict(op="mmm", A="A", B="B", C="C")]
        out.append(ops)
    # long matrices: banded
    for size in ([300] if tier == "quick" else [300, 2500, 4000]):
        for rbs, cbs in ((1, 1), (2, 3), (3, 2)):
            rows = [sorted({max(0, r - 1), r, min(size - 1, r + 2)}) if r % 7 else [] for r in range(size)]
            ops = [mat(rng, "A", size, size, rbs, cbs, rows=rows), vec(rng, "x", size * cbs), vec(rng, "y", size * rbs),
                   dict(op="mtv", A="A", x="x", y="y")]
            out.append(ops)
    # structurally empty and degenerate operands
    for rbs, cbs in ((1, 1), (2, 2), (1, 3), (3, 1)):
        e = dict(op="mat", A="A", rows=2 * rbs, cols=3 * cbs, rbs=rbs, cbs=cbs, rm=[0, 0, 0], ci=[], en=[])
        out.append([e, vec(rng, "x", 3 * cbs), vec(rng, "y", 2 * rbs), dict(op="mtv", A="A", x="x", y="y")])
        out.append([e, mat(rng, "B", 3, 2, cbs, 2), shape("C", 2 * rbs, 4, rbs, 2), dict(op="mmm", A="A", B="B", C="C")])
        out.append([e, mat(rng, "B", 2, 3, 1, cbs), dict(op="minus", A="A", B="B", off=0)])
    return out


def nonblock_data(rng, nr, nc, rbs, cbs, shuffle=True):
    rows = pattern(rng, nr, nc)
    rm, ci, en = [0], [], []
    for r in range(nr * rbs):
        cols = [c * cbs + k for c in rows[r // rbs] for k in range(cbs)]
        if shuffle:
            rng.shuffle(cols)
        ci += cols
        en += [val(rng) for _ in cols]
        rm.append(len(ci))
    return rm, ci, en


def conversions(rng, tier):
    n = 110 if tier == "quick" else 900
    out = []
    for _ in range(n):
        rbs, cbs = rng.choice(BS), rng.choice(BS)
        nr, nc = rng.randint(1, 5), rng.randint(1, 5)
        if rbs * nr > 14:
            nr = 2
        if cbs * nc > 14:
            nc = 2
        uns = rng.random() < .5
        ops = [mat(rng, "A", nr, nc, rbs, cbs, unsorted=uns),
               dict(op="nonblock", A="A", dflt=rng.random() < .5, stride=1, off=rng.choice([0, 0, 1])),
               shape("B", nr * rbs, nc * cbs, rbs, cbs), dict(op="roundtrip", A="A", B="B"),
               dict(op="roundtrip", A="B", B="A")]
        stride = rng.choice([2, 3, 4])
        ops += [mat(rng, "S", nr, nc, 1, cbs, unsorted=uns),
                dict(op="nonblock", A="S", dflt=False, stride=stride, off=rng.randrange(stride))]
        rm, ci, en = nonblock_data(rng, nr, nc, rbs, cbs)
        ops += [shape("T", nr * rbs, nc * cbs, rbs, cbs), dict(op="setnb", A="T", rm=rm, ci=ci, en=en),
                dict(op="nonblock", A="T", dflt=True, stride=1, off=0)]
        # sort arbitrary plain rows
        cols = rng.randint(1, 9)
        rm, ci, en = [0], [], []
        for r in range(rng.randint(1, 5)):
            cs = rng.sample(range(cols), rng.randint(0, cols))
            ci += cs
            en += [val(rng) for _ in cs]
            rm.append(len(ci))
        ops.append(dict(op="sort", rm=rm, ci=ci, en=en, cols=cols))
        out.append(ops)
    for size in ([200] if tier == "quick" else [200, 1500]):
        rm, ci, en = [0], [], []
        for r in range(size):
            cs = rng.sample(range(60), rng.choice([0, 1, 5, 17, 33]) if r % 50 == 0 else rng.choice([0, 1, 3]))
            ci += cs
            en += [val(rng) for _ in cs]
            rm.append(len(ci))
        out.append([dict(op="sort", rm=rm, ci=ci, en=en, cols=60)])
    for rbs, cbs in ((1, 1), (2, 3), (3, 2)):
        e = dict(op="mat", A="A", rows=2 * rbs, cols=3 * cbs, rbs=rbs, cbs=cbs, rm=[0, 0, 0], ci=[], en=[])
        out.append([e, dict(op="nonblock", A="A", dflt=True, stride=1, off=0), shape("B", 2 * rbs, 3 * cbs, rbs, cbs),
                    dict(op="roundtrip", A="A", B="B")])
    return out


def constraints(rng, tier):
    n = 140 if tier == "quick" else 1200
    out = []
    for t in range(n):
        N = rng.choice([1, 1, 2, 2, 3, 3, 4, 6])
        block = N > 1 or rng.random() < .4
        nn = rng.randint(1, 5 if N < 3 else 3)
        nd = N * nn
        rows = [[] for _ in range(nn)]
        for r in range(nn):
            for c in range(r + 1):
                if c == r or rng.random() < rng.choice([.3, .8, 1.0]):
                    rows[r].append(c)
                    if c != r:
                        rows[c].append(r)
        for r in rows:
            rng.shuffle(r) if rng.random() < .3 else r.sort()
        tab = {}
        symmetric = rng.random() < .4

        def f(r, c):
            k = (min(r, c), max(r, c)) if symmetric else (r, c)
            if k not in tab:
                tab[k] = val(rng)
            return tab[k]
        ops = [mat(rng, "A", nn, nn, N, N, rows=rows, values=f), vec(rng, "b", nd)]
        times = rng.choice([1, 1, 1, 2])
        used = {}
        for _ in range(times):
            k = rng.choice([0, 1, 1, 2, 3, nd])
            dofs = [d for d in rng.sample(range(nd), min(k, nd)) if d not in used]
            vals = {d: (val(rng) if rng.random() < .8 else 0.0) for d in dofs}
            used.update(vals)
            if dofs and rng.random() < .3:
                dofs += [rng.choice(dofs) for _ in range(2)]
                rng.shuffle(dofs)
            dflt = rng.random() < .4
            ops.append(dict(op="bc", A="A", b="b", n=N, block=block, dofs=dofs, vals=[vals[d] for d in dofs],
                            dflt=dflt, scale=rng.choice([0.0, 1.0, 0.5, -2.0, 0.1])))
        ops += [vec(rng, "x", nd), vec(rng, "y", nd), dict(op="mtv", A="A", x="x", y="y")]
        out.append(ops)
    # a long chain
    for N in (1, 2):
        nn = 60 if tier == "quick" else 400
        rows = [sorted({max(0, r - 1), r, min(nn - 1, r + 1)}) for r in range(nn)]
        dofs = rng.sample(range(N * nn), nn // 3)
        out.append([mat(rng, "A", nn, nn, N, N, rows=rows), vec(rng, "b", N * nn),
                    dict(op="bc", A="A", b="b", n=N, block=True, dofs=dofs, vals=[val(rng) for _ in dofs], dflt=True, scale=1.0)])
    return out


def rowsums(rng, tier):
    n = 110 if tier == "quick" else 900
    out = []

    def safe(name, nr, nc, rbs, cbs):
        # row sums bounded away from zero
        while True:
            m = mat(rng, name, nr, nc, rbs, cbs, full_diag=True, dens=rng.choice([.3, .8]))
            ok = True
            for br in range(nr):
                for lr in range(rbs):
                    s = a = 0.0
                    for k in range(m["rm"][br], m["rm"][br + 1]):
                        for lc in range(cbs):
                            x = m["en"][(k * rbs + lr) * cbs + lc]
                            s += x
                            a += abs(x)
                    ok = ok and abs(s) > 1e-3 * a and a > 0
            if ok:
                return m
    for _ in range(n):
        N = rng.choice([1, 2, 3, 4])
        nn = rng.randint(1, 4 if N < 3 else 2)
        cbs = rng.choice([1, 2, 3])
        nc = rng.randint(1, 3)
        k = rng.random()
        if k < .35:
            ops = [mat(rng, "A", nn, nc, N, cbs), dict(op="vec", x="r", v=[0.0] * (nn * N)), dict(op="rowsum", A="A", r="r")]
            sq = safe("S", nn, nn, N, N)
            ops += [sq, vec(rng, "b", nn * N), vec(rng, "x", nn * N), dict(op="rowsummed", n=N, A="S", x="x", b="b")]
            ops += [vec(rng, "w", nn * N, nz), dict(op="invw", n=N, r="w", b="b", x="x", dflt=rng.random() < .4,
                                                   scale=rng.choice([1.0, -2.0, 0.5]))]
            ops += [dict(op="diaginv", A="A", r="w")]
        elif k < .6:
            ops = [safe("A", nn, nn, N, N), mat(rng, "B", nn, nc, N, cbs), dict(op="rsim", A="A", B="B")]
        else:
            # A: nn nodes x m nodes blocks (N, cbs); B: 1 x q; C: q x q; D: q x cbs
            q = rng.choice([1, 2, 3])
            ops = [mat(rng, "A", nn, nc, N, cbs), mat(rng, "B", nn, nn, 1, q), safe("C", nn, nn, q, q),
                   mat(rng, "D", nn, nc, q, cbs),
                   dict(op="condense", A="A", B="B", C="C", D="D", off=rng.randrange(N) if N > 1 else 0)]
            if rng.random() < .4:
                ops += [vec(rng, "x", nc * cbs), vec(rng, "y", nn * N), dict(op="mtv", A="A", x="x", y="y")]
        out.append(ops)
    return out
