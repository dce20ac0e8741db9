"""Scenario generators for elastic, electroelastic and thermoelastic materials and their responses."""
import material
from material import D, L
from plast import num, pos, pr, row, rows, some
from field import NV, cube


def mag(rng):
    return rng.choice([1.0, 2.5, 1e6, round(rng.uniform(.1, 20), 3), rng.uniform(1, 9) * 10 ** rng.randint(-3, 9)])


def nu(rng):
    return rng.choice([0.0, 0.3, 0.25, -0.4, 0.49, round(rng.uniform(-.9, .49), 4)])


def opt(rng, p, k, v, q=.3):
    if rng.random() < q:
        p[k] = D(v)


def drop(rng, p, keys, q=.04):
    for k in keys:
        if rng.random() < q / max(1, len(keys)) * 2:
            if rng.random() < .5:
                p.pop(k, None)
            else:
                p[k] = rng.choice([dict(t="i", i=3), dict(t="s", s="1.0")])


def common(rng, p):
    for k in ("e11", "e22", "e33", "e23", "e13", "e12"):
        opt(rng, p, k, num(rng))
    opt(rng, p, "Mass Density", mag(rng), .5)
    opt(rng, p, "RayleighA", num(rng))
    opt(rng, p, "RayleighB", num(rng), .5)
    return p


EQ = {"iso": "E/((1.0+v)*(1.0-2.0*v))", "mix": "E*(1.0-v)+2.0*v", "sq": "E*E"}


def elastic(rng, d):
    """-> (sublist name, list, equation)"""
    k = rng.random()
    if k < .3:
        p = common(rng, {"Poissons Ratio": D(nu(rng)), "Youngs Modulus": D(mag(rng))})
        opt(rng, p, "Pressure Scaling", mag(rng))
        drop(rng, p, ["Poissons Ratio", "Youngs Modulus"])
        return "Isotropic Linear Elastic", p, "none"
    if k < .45:
        p = common(rng, {"C11": D(mag(rng)), "C12": D(num(rng)), "C44": D(mag(rng))})
        drop(rng, p, ["C11"] if d == 1 else ["C11", "C12", "C44"])
        return "Cubic Linear Elastic", p, "none"
    if k < .6:
        w = rng.choice(sorted(EQ))
        p = common(rng, {"v": D(nu(rng)), "E": D(mag(rng)), "Equation": dict(t="s", s=EQ[w])})
        opt(rng, p, "Pressure Scaling", mag(rng))
        drop(rng, p, ["E", "v"])
        return "Custom Linear Elastic", p, w
    p = common(rng, {})
    b = mag(rng)
    f = lambda: round(b * rng.choice([1, 1, rng.uniform(.2, 5)]), 6)
    if d == 1 or rng.random() < .1:
        p.update({"Poissons Ratio": D(nu(rng)), "Youngs Modulus": D(mag(rng))})
    if d > 1:
        keys = ["Youngs Modulus X", "Youngs Modulus Y", "Shear Modulus XY", "Poissons Ratio XY"]
        if d == 3:
            keys += ["Youngs Modulus Z", "Shear Modulus XZ", "Shear Modulus YZ", "Poissons Ratio XZ", "Poissons Ratio YZ"]
        wide = rng.choice([.3, .3, .3, .6, 1.4])
        for q in keys:
            p[q] = D(round(rng.uniform(-wide, wide), 3) if "Ratio" in q else f())
            if "Ratio" not in q and rng.random() < .02:
                p[q] = D(-f())
        drop(rng, p, keys)
    else:
        drop(rng, p, ["Poissons Ratio", "Youngs Modulus"])
    return "Orthotropic Linear Elastic", p, "none"


def electro(rng, d):
    p = {"Poissons Ratio": D(nu(rng)), "Youngs Modulus": D(mag(rng))}
    for k in ("e33", "p33") + (("e15", "e31", "p11") if d > 1 or rng.random() < .3 else ()):
        p[k] = D(num(rng))
    opt(rng, p, "Alpha", rng.choice([1e9, 2.0, -3.0, .5, 0.0]), .6)
    drop(rng, p, ["Poissons Ratio", "Youngs Modulus", "e33", "p33"] + (["e15", "e31", "p11"] if d > 1 else []))
    return "Isotropic Linear Electroelastic", p, "none"


def thermo(rng, d):
    p = {"Poissons Ratio": D(nu(rng)), "Youngs Modulus": D(mag(rng)), "Reference Temperature": D(num(rng))}
    for k in ("Mass Density", "Specific Heat", "Temperature Scaling", "Pressure Scaling"):
        opt(rng, p, k, mag(rng), .5)
    if rng.random() < .5:
        p.update({"Thermal Expansion Coefficient": D(num(rng)), "Thermal Conductivity Coefficient": D(num(rng))})
        drop(rng, p, list(p)[:3] + ["Thermal Expansion Coefficient"])
        return "Isotropic Linear Thermoelastic", p, "none"
    for i in range(1, d + 1):
        p["a%d%d" % (i, i)] = D(num(rng))
        p["k%d%d" % (i, i)] = D(num(rng))
    drop(rng, p, ["a11", "k%d%d" % (d, d), "a%d%d" % (d, d), "Reference Temperature"])
    return "Cubic Linear Thermoelastic", p, "none"


def coeff(rng, n, pre, shear):
    p = {}
    for i in range(1, n + 1):
        for j in range(i, n + 1):
            if rng.random() < .5 or (i == j and i in (1, shear)):
                p["c%s%d%d" % (pre, i, j)] = D(num(rng))
    return p


def tm(rng, d):
    """A complete thermoelastic material of the field formulation."""
    non = rng.random() < .5
    pres = ["0", "1", "2"] if non else [""]
    p = {"Temperature Dependent": dict(t="b", b=True)} if non else {}

    def tens(n, shear):
        q = {}
        for pre in pres:
            q.update(coeff(rng, n, pre, shear))
        return L(q)
    if rng.random() < .5:
        ym = D(mag(rng)) if not non or rng.random() < .3 else L({"c0": D(mag(rng)), "c1": D(num(rng)), "c2": D(num(rng))})
        p["Elastic Stiffness"] = L({"Youngs Modulus": ym, "Poissons Ratio": D(nu(rng))})
    else:
        p["Elastic Stiffness"] = tens(NV[d], d + 1)
    for k in ("Thermal Expansivity", "Thermal Conductivity"):
        p[k] = D(num(rng)) if rng.random() < .3 else tens(d, 1)
    opt(rng, p, "Reference Temperature", num(rng), .6)
    opt(rng, p, "Temperature Scaling", rng.choice([2.0, .5, 100.0]), .5)
    return "Thermoelastic", p, "none"


MAKE = dict(elastic=elastic, electro=electro, thermo=thermo, tm=tm)


def make(rng, kind, d, M="A"):
    names = ["steel", "pzt", "m"]
    name = rng.choice(names)
    n, p, eq = MAKE[kind](rng, d)
    lst = {n: L(p)}
    if kind == "elastic" and rng.random() < .15:       # several definitions: the first in the documented order counts
        n2, p2, eq2 = elastic(rng, d)
        lst.setdefault(n2, L(p2))
        if n2 == "Custom Linear Elastic" and n != n2:
            eq = eq2
    models = {name: L(lst)}
    if rng.random() < .5:
        o = rng.choice(names)
        if o not in models:
            models[o] = L({MAKE[kind](rng, d)[0]: L({})})
    r = rng.random()
    ask = name if r < .97 else rng.choice(names + ["none"])
    prm = {"Material Models": L(models)} if r > .01 else {}
    if .01 < r < .03:
        models[name] = L({"Something Else": L(p)})
    return dict(op="make", dim=d, kind=kind, name=ask, p=prm, eq=eq, M=M)


def complete(o):
    """The material is one that can be used afterwards (only a guess: an event on a material that does not exist is not sent)."""
    m = o["p"].get("Material Models", {}).get("l", {}).get(o["name"], {}).get("l")
    return m is not None


def responses(rng, tier):
    out = []
    for _ in range(520 if tier == "quick" else 6000):
        d = rng.choice([1, 2, 3])
        kind = rng.choice(["elastic", "elastic", "elastic", "electro", "thermo", "tm"])
        sc = [make(rng, kind, d)]
        n, c = NV[d], rng.randint(1, 3)
        for _ in range(rng.randint(0, 2)):
            o = dict(dim=d, M="A", cells=some(rng, c), e=rows(rng, c, n), r0=rows(rng, c, n), opt=True)
            k = rng.random()
            if kind == "elastic":
                if k < .45:
                    o.update(op="lstress", what=rng.choice(["plain", "model", "damped"]), v=rows(rng, c, n))
                elif k < .6:
                    o.update(op="homog", col=rng.randint(0, n - 1))
                elif k < .7:
                    o.update(op="forcing", col=rng.randint(0, n - 1), cells=list(range(c)))
                elif k < .8:
                    o.update(op="cstress", e=cube(rng, c, 2, n), r0=cube(rng, c, 2, n))
                elif d > 1:
                    o.update(op="mixed", thermal=False)
                else:
                    continue
            elif kind == "electro":
                o.update(op="emkin", g=rows(rng, c, d), q0=rows(rng, c, d))
            elif kind == "tm":
                o.update(op="tmkin", g=rows(rng, c, d), q0=rows(rng, c, d), T=row(rng, c))
            elif d > 1:
                o.update(op="mixed", thermal=True)
            else:
                continue
            if o["op"] == "mixed":
                o.update(g=rows(rng, c, d), pg=rows(rng, c, d), ppg=rows(rng, c, d), q0=rows(rng, c, d), s0=rows(rng, c, d), p=row(rng, c), f0=row(rng, c), T=row(rng, c),
                         vol=[pr(rng, pos(rng)) for _ in range(c)])
            del o["opt"]
            sc.append(o)
        out.append(sc)
    return out
