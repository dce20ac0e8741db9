"""Scenario generators for material properties and models."""


def num(rng):
    return rng.choice([0.0, 1.0, -1.0, 2.5, float(rng.randint(-9, 9)), round(rng.uniform(-50, 50), 3), rng.uniform(0, 1) * 10 ** rng.randint(-6, 9)])


def D(v):
    return dict(t="d", v=float(v))


def L(v):
    return dict(t="l", l=v)


def odd(rng, name):
    """An entry of the wrong type."""
    return rng.choice([dict(t="i", i=3), dict(t="s", s="1.0"), dict(t="b", b=True)])


def nv(dim):
    return {1: 1, 2: 3, 3: 6}[dim]


def coeffs(rng, n, prefixes, pres=.5, req=.95, extra=0.03):
    p = {}
    for pre in prefixes:
        for i in range(1, n + 1):
            for j in range(i, n + 1):
                need = pre in ("", "0") and i == j and i in (1, 3, 4)
                if rng.random() < (req if need else pres):
                    k = "c%s%d%d" % (pre, i, j)
                    p[k] = D(num(rng)) if rng.random() > extra else odd(rng, k)
    if rng.random() < .1:
        p["c21"] = D(7)
        p["c021"] = D(7)
    return p


def scal(rng, req=.95):
    p = {}
    for k in ("c0", "c1", "c2"):
        if rng.random() < (req if k == "c0" else .6):
            p[k] = D(num(rng)) if rng.random() > .04 else odd(rng, k)
    return p


def nu(rng):
    return rng.choice([0.0, 0.3, 0.25, -0.4, 0.49, 0.4999, round(rng.uniform(-.9, .49), 4)])


def iso(rng, w):
    p = {}
    if rng.random() < .95:
        p["Poissons Ratio"] = D(nu(rng)) if rng.random() > .03 else odd(rng, "")
    if w == "constant":
        if rng.random() < .95:
            p["Youngs Modulus"] = D(abs(num(rng)))
        elif rng.random() < .5:
            p["Youngs Modulus"] = L(scal(rng))
    elif rng.random() < .97:
        p["Youngs Modulus"] = L(scal(rng))
    return p


def definition(rng, rank, w, dim):
    c = rng.choice(["zero", "value", "list", "list", "list"] if rank != "v" else ["zero", "list", "list", "list", "iso", "iso"])
    o = dict(ctor=c, w=w)
    if c == "value":
        o["v"] = num(rng)
    if c == "iso":
        o["p"] = iso(rng, w)
    if c == "list":
        pre = [""] if w == "constant" else ["0", "1", "2"]
        o["p"] = scal(rng) if rank == "s" else coeffs(rng, dim if rank == "t" else nv(dim), pre, rng.choice([0, .3, .6, 1]))
    return o


def xs(rng):
    return [num(rng) for _ in range(rng.choice([1, 2]))]


def props(rng, tier):
    out = []
    for _ in range(250 if tier == "quick" else 4000):
        dim = rng.choice([1, 2, 3])
        rank = rng.choice("sttvvv")
        w = "functor" if rank == "s" else rng.choice(["functor", "constant"])
        out.append([dict(op="prop", rank=rank, dim=dim, x=xs(rng), **definition(rng, rank, w, dim))])
    return out


def stiffness(rng, tier):
    """Stiffness tensors only: isotropic in every form and dimension, and anisotropic."""
    out = []
    for _ in range(220 if tier == "quick" else 4000):
        dim = rng.choice([1, 2, 3])
        w = rng.choice(["functor", "constant"])
        o = dict(op="prop", rank="v", dim=dim, x=xs(rng), w=w)
        if rng.random() < .6:
            o.update(ctor="iso", p=iso(rng, w))
        else:
            o.update(ctor="list", p=coeffs(rng, nv(dim), [""] if w == "constant" else ["0", "1", "2"], rng.choice([0, .3, .6, 1])))
        out.append([o])
        if rng.random() < .3:
            out.append(thermo_ops(rng, dim))
    return out


def tensor_entry(rng, dim, non):
    if rng.random() < .4:
        return D(num(rng))
    return L(coeffs(rng, dim, ["0", "1", "2"] if non else [""], rng.choice([.3, .8])))


def thermoelastic(rng, dim):
    non = rng.random() < .5
    p = {}
    if non:
        p["Temperature Dependent"] = dict(t="b", b=True)
    elif rng.random() < .3:
        p["Temperature Dependent"] = rng.choice([dict(t="b", b=False), dict(t="s", s="true")])
    k = rng.random()
    form = rng.choice(["constant", "functor"]) if rng.random() < .3 else ("functor" if non and k < .5 else "constant")
    if rng.random() < .96:
        p["Elastic Stiffness"] = L(iso(rng, form) if rng.random() < .7 else coeffs(rng, nv(dim), ["0", "1", "2"] if non else [""], .6))
    for n in ("Thermal Expansivity", "Thermal Conductivity"):
        if rng.random() < .97:
            p[n] = tensor_entry(rng, dim, non)
    for n in ("Reference Temperature", "Temperature Scaling"):
        if rng.random() < .5:
            p[n] = D(num(rng))
    return p


def wrap(rng, kind, p):
    name = rng.choice(["steel", "6061-T6", "m 1"])
    q = {name: L({kind: L(p)})}
    if rng.random() < .5:
        q["other"] = L({rng.choice(["Thermal Mass", "Thermal Conduction", "Thermoelastic"]): L({})})
    r = rng.random()
    top = {"Material Models": L(q)}
    if r < .04:
        top = {}
    elif r < .08:
        name = "absent"
    elif r < .12:
        q[name] = L({"Unknown": L(p)})
    return name, top


def thermo_ops(rng, dim):
    name, top = wrap(rng, "Thermoelastic", thermoelastic(rng, dim))
    ops = [dict(op="make", M="m", dim=dim, kind="Thermoelastic", name=name, p=top)]
    return ops


def finish(rng, ops, dim):
    """What a created model can be asked (the driver answers; only meaningful when the model exists)."""
    ops.append(dict(op="type", M="m"))
    for slot, n in [("vc", "Elastic Stiffness"), ("vf", "Elastic Stiffness"), ("tc", "Thermal Expansivity"), ("tf", "Thermal Expansivity"),
                    ("tc", "Thermal Conductivity"), ("tf", "Thermal Conductivity"), ("sc", "Reference Temperature"), ("sc", "Temperature Scaling")]:
        if rng.random() < .6:
            ops.append(dict(op="get", M="m", slot=slot, name=n, x=xs(rng)))
    return ops


def cells(rng, dim):
    n = rng.randint(1, 3)
    return [[num(rng) for _ in range(dim)] for _ in range(n)], [num(rng) for _ in range(n)]


def models(rng, tier):
    out = []
    for _ in range(150 if tier == "quick" else 2000):
        # a history on one or two models
        dim = rng.choice([1, 2, 3])
        ops, mods = [], []
        for M in ("m", "n")[:rng.choice([1, 1, 2])]:
            p = {}
            if rng.random() < .7:
                p["Temperature Dependent"] = rng.choice([dict(t="b", b=True), dict(t="b", b=True), dict(t="b", b=False), dict(t="s", s="true")])
            ops.append(dict(op="model", M=M, dim=dim, dflt=rng.random() < .1, p=p))
            mods.append(M)
        names = ["A", "B"]
        for _ in range(rng.randint(3, 9)):
            M, nm = rng.choice(mods), rng.choice(names)
            r = rng.random()
            if r < .45:
                what = rng.choice(["scalar", "scalar", "const", "constdef", "tensor", "tensor", "voigt"])
                p = {}
                k = rng.random()
                if k < .35:
                    p[nm] = D(num(rng))
                elif k < .9:
                    f = rng.random() < .5
                    p[nm] = L(scal(rng) if what in ("scalar", "const", "constdef") else coeffs(rng, dim if what == "tensor" else nv(dim), ["", "0", "1", "2"] if rng.random() < .7 else [""], .5))
                elif k < .95:
                    p[nm] = odd(rng, nm)
                ops.append(dict(op="parse", M=M, what=what, name=nm, p=p, **{"def": num(rng)}))
            elif r < .6:
                slot = rng.choice(["sc", "tc", "vc", "sf", "tf", "vf"])
                if slot == "sc":
                    ops.append(dict(op="set", M=M, slot=slot, name=nm, ctor="value", w="constant", v=num(rng)))
                else:
                    rank = slot[0]
                    ops.append(dict(op="set", M=M, slot=slot, name=nm, **definition(rng, rank, "functor" if slot[1] == "f" else "constant", dim)))
            else:
                ops.append(dict(op="get", M=M, slot=rng.choice(["sc", "tc", "vc", "sf", "tf", "vf"]), name=nm, x=xs(rng)))
        ops += [dict(op="type", M=mods[0])]
        out.append(ops)
    for _ in range(120 if tier == "quick" else 1500):
        dim = rng.choice([1, 2, 3])
        kind = rng.choice(["Thermal Conduction", "Thermal Mass", "Thermoelastic", "Thermoelastic"])
        non = rng.random() < .5
        if kind == "Thermoelastic":
            p = thermoelastic(rng, dim)
        else:
            p = {"Temperature Dependent": dict(t="b", b=True)} if non else {}
            for n in (["Thermal Conductivity"] if kind == "Thermal Conduction" else ["Mass Density", "Specific Heat"]):
                if rng.random() < .97:
                    if kind == "Thermal Mass":
                        p[n] = L(scal(rng)) if rng.random() < (.6 if non else .1) else D(num(rng))
                    else:
                        p[n] = tensor_entry(rng, dim, non if rng.random() < .93 else not non)
        name, top = wrap(rng, kind, p)
        out.append([dict(op="make", M="m", dim=dim, kind=kind, name=name, p=top)])
        # a complete model, then everything it yields
        td = {"Temperature Dependent": dict(t="b", b=True)} if non else {}
        if kind == "Thermoelastic":
            full = dict(td)
            full["Elastic Stiffness"] = L(rng.choice([
                {"Poissons Ratio": D(nu(rng)), "Youngs Modulus": D(abs(num(rng)))},
                {"Poissons Ratio": D(nu(rng)), "Youngs Modulus": L({"c0": D(num(rng)), "c1": D(num(rng))})} if non else {"Poissons Ratio": D(.2), "Youngs Modulus": D(5.0)},
                coeffs(rng, nv(dim), ["0", "1", "2"] if non else [""], .6, 1, 0)]))
            for n in ("Thermal Expansivity", "Thermal Conductivity"):
                full[n] = D(num(rng)) if rng.random() < .4 else L(coeffs(rng, dim, ["0", "1", "2"] if non else [""], .6, 1, 0))
            if rng.random() < .5:
                full["Reference Temperature"] = D(num(rng))
            ops = finish(rng, [dict(op="make", M="m", dim=dim, kind=kind, name="s", p={"Material Models": L({"s": L({kind: L(full)})})})], dim)
            out.append(ops)
            continue
        full = dict(td)
        for n in (["Thermal Conductivity"] if kind == "Thermal Conduction" else ["Mass Density", "Specific Heat"]):
            if kind == "Thermal Mass":
                full[n] = L(dict(scal(rng), c0=D(num(rng)))) if non and rng.random() < .7 else D(num(rng))
            else:
                full[n] = D(num(rng)) if rng.random() < .3 else L(coeffs(rng, dim, ["0", "1", "2"] if non else [""], .7, 1, 0))
        ops = [dict(op="make", M="m", dim=dim, kind=kind, name="s", p={"Material Models": L({"s": L({kind: L(full)})})})]
        for _ in range(2):
            g, T = cells(rng, dim)
            form = 3 if non else rng.choice([2, 3])
            if kind == "Thermal Conduction":
                ops.append(dict(op="flux", M="m", form=form, grad=g, T=T))
            else:
                ops.append(dict(op="content", M="m", form=form, rate=T, T=[num(rng) for _ in T]))
        out.append(ops)
    for _ in range(60 if tier == "quick" else 600):
        p = {}
        for n in ("a", "b"):
            if rng.random() < .6:
                p[n] = rng.choice([D(num(rng)), odd(rng, n), L({"x": rng.choice([D(num(rng)), odd(rng, "x")])}), L({})])
        if rng.random() < .5:
            out.append([dict(op="param", p=p, name=rng.choice("ab"), hasdef=rng.random() < .5, **{"def": num(rng)})])
        else:
            out.append([dict(op="subparam", p=p, sub=rng.choice("ab"), name="x", **{"def": num(rng)})])
    return out
