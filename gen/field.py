"""Scenario generators for kinematics, interpolation, dynamics and quadrature."""
from plast import num, pos, pr, row, rows, plain, some

NV = {1: 1, 2: 3, 3: 6}


def cube(rng, c, n, m):
    return [rows(rng, n, m) for _ in range(c)]


def scale(rng):
    return rng.choice(["none", 1.0, -1.0, num(rng)])


def lay(rng):
    a = rng.randint(0, 2)
    return a, rng.randint(0, a)


def kinematics(rng, tier):
    out = [[dict(op="voigt", dim=d)] for d in (1, 2, 3)]
    for _ in range(420 if tier == "quick" else 5000):
        d, c = rng.choice([1, 2, 3]), rng.randint(1, 3)
        n, nn = NV[d], d + 1
        a, b = lay(rng)
        o = dict(dim=d, cells=some(rng, c), B=cube(rng, c, nn, d), a=a, b=b)
        vol = [pr(rng, pos(rng)) for _ in range(c)]
        k = rng.random()
        if k < .35:
            w = rng.choice(["stab", "tm", "em", "stabtm"])
            nd = d + (2 if w == "stabtm" else 1)
            e0 = [[pr(rng) if i < d else [0.0, 0.0] for i in range(n)] for _ in range(c)]      # shear accumulates into a fresh container
            o.update(op="kin", what=w, u=rows(rng, c, nn * nd), e0=e0, g0=rows(rng, c, d), h0=rows(rng, c, d))
        elif k < .45:
            e0 = [[[pr(rng) if i < d else [0.0, 0.0] for i in range(n)] for _ in range(2)] for _ in range(c)]
            o.update(op="cstrain", u=rows(rng, c, nn * (2 * d + a)), e0=e0)
        elif k < .53:
            o.update(op="cdiv", s=cube(rng, c, 2, n), vol=vol, r0=rows(rng, c, nn * (2 * d + a)))
        elif k < .68:
            o.update(op="sdiv", s=rows(rng, c, n), vol=vol, r0=rows(rng, c, nn * (d + a)), scale=scale(rng))
        elif k < .78:
            o.update(op="pdiv", s=row(rng, c), vol=vol, r0=rows(rng, c, nn * (d + a)), scale=scale(rng))
        elif k < .88:
            o.update(op="fdiv", s=rows(rng, c, d), vol=vol, r0=rows(rng, c, nn * (1 + a)), scale=scale(rng))
        elif k < .94:
            o.update(op="pgrad", u=rows(rng, c, nn), r0=rows(rng, c, d), scale=scale(rng))
        else:
            o.update(op="ediv", e=rows(rng, c, n), r0=row(rng, c))
        out.append([o])
    return out


def interpolation(rng, tier):
    out = [[dict(op="tetrule", dim=d)] for d in (1, 2, 3)]
    for d in range(-1, 6):
        for q in range(-2, 8):
            out.append([dict(op="cub", dim=d, degree=q, dn=0, dd=0, dw=0)])
    for _ in range(420 if tier == "quick" else 5000):
        d, c = rng.choice([1, 2, 3]), rng.randint(1, 3)
        nn = d + 1
        a, b = lay(rng)
        o = dict(dim=d, cells=some(rng, c), a=a, b=b)
        vol = [pr(rng, pos(rng)) for _ in range(c)]
        phi = [num(rng) for _ in range(nn)]
        k = rng.random()
        if k < .1:
            o.update(op="interp1", u=rows(rng, c, nn * (1 + a)), phi=phi, r0=row(rng, c))
        elif k < .2:
            o.update(op="interpv", u=rows(rng, c, nn * (d + a)), phi=phi, r0=rows(rng, c, d))
        elif k < .28:
            m = rng.randint(1, 4)
            o.update(op="values", u=rows(rng, c, nn * m), phi=phi, r0=rows(rng, c, m))
        elif k < .38:
            o.update(op="projv", s=rows(rng, c, rng.randint(1, d)), phi=phi, vol=vol, r0=rows(rng, c, nn * (d + a)), scale=scale(rng))
        elif k < .46:
            o.update(op="proj1", s=row(rng, c), phi=phi, vol=vol, r0=rows(rng, c, nn * (1 + a)), scale=scale(rng))
        elif k < .54:
            m = rng.randint(1, 6)
            o.update(op="inertia", s=rows(rng, c, m), phi=phi, vol=vol, rho=pos(rng), r0=rows(rng, c, nn * m))
        elif k < .66:
            m = 2 * d + rng.choice([0, 0, 3])
            lst = rng.random() < .5
            o.update(op="damp", what=rng.choice(["real", "complex", "adjoint"]), list=lst, mass=rng.choice([num(rng), "none"] if lst else [num(rng)]),
                     stiff=rng.choice([num(rng), "none"] if lst else [num(rng)]), k=rows(rng, c, m), m=rows(rng, c, m), r0=rows(rng, c, m))
        elif k < .72:
            o.update(op="cenergy", s=cube(rng, c, 2, NV[d]), e=cube(rng, c, 2, NV[d]), r0=row(rng, c))
        elif k < .78:
            o.update(op="kenergy", s=rows(rng, c, 2 * d), vol=vol, omega=num(rng), rho=pos(rng), r0=row(rng, c))
        elif k < .86:
            m = 2 * d + rng.choice([0, 0, 2])
            o.update(op="dynres", k=rows(rng, c, m), d=rows(rng, c, m), m=rows(rng, c, m), w2=abs(num(rng)), r0=rows(rng, c, m))
        elif k < .92:
            o.update(op="frmisfit", u=rows(rng, c, nn * 2 * d), x=plain(rng, c, nn * 2 * d), r0=row(rng, c))
        else:
            o = dict(op="basis", dim=d, x=[[num(rng) if rng.random() < .3 else rng.uniform(0, 1) for _ in range(d)] for _ in range(rng.randint(1, 4))])
        out.append([o])
    return out
