"""Scenario generators for element traits, expressions of time and AmgX configurations."""
PH = ["Thermal", "Mechanics", "Electromechanics", "Thermomechanics", "StabilizedThermomechanics", "StabilizedMechanics", "StructuralDynamics", "Plasticity", "ThermoPlasticity",
      "Projection", "Multi"]
KINDS = {"elliptic": ["Residual", "Jacobian", "GradientZ", "GradientX"], "parabolic": ["Residual", "GradientU", "GradientV", "GradientZ", "GradientX"],
         "hyperbolic": ["Residual", "GradientU", "GradientV", "GradientA", "GradientZ", "GradientX"],
         "local": ["Residual", "Jacobian", "JacobianN", "JacobianP", "LocalJacobian", "LocalJacobianP", "GradientZ", "GradientX"]}
ARGS = {"elliptic": "uzx", "parabolic": "uuzx", "hyperbolic": "uuuzx", "local": "uullnzx"}
SIZES = {"Plasticity": dict(u=9, l=10, n=6, z=3, x=6), "Thermomechanics": dict(u=4, l=1, n=1, z=2, x=2)}


def elements(rng, tier):
    out = []
    for _ in range(40 if tier == "quick" else 400):
        p = rng.choice(sorted(SIZES))
        f = rng.choice(sorted(KINDS))
        k = rng.choice([x for x in KINDS[f] if p == "Plasticity" or x not in ("JacobianN", "LocalJacobian", "LocalJacobianP")])
        v = [[round(rng.uniform(-2, 2), 3) for _ in range(SIZES[p][a])] for a in ARGS[f]]
        out.append([dict(op="derive", phys=p, dim=2 if p == "Plasticity" else 1, fam=f, kind=k, v=v)])
    return out


def leaf(k, t):
    return dict(n=k, t=t, a=[])


def node(k, *a):
    return dict(n=k, t="", a=list(a))


def tree(rng, d, names):
    r = rng.random()
    if d == 0 or r < .15:
        return leaf("var", rng.choice(["t", "t"] + names)) if rng.random() < .6 else leaf("num", "%.*f" % (rng.randint(1, 4), rng.uniform(0, 9)))
    if r < .65:
        return node(rng.choice("+-*"), tree(rng, d - 1, names), tree(rng, d - 1, names))
    if r < .75:
        return node("/", tree(rng, d - 1, names), leaf("num", "%.2f" % rng.uniform(.5, 9)))
    if r < .82:
        return node("^", tree(rng, d - 1, names), leaf("num", str(rng.randint(1, 4))))
    if r < .9:
        return node("neg", tree(rng, d - 1, names))
    f = rng.choice(["sin", "cos", "exp"])
    if f == "exp":
        return node("exp", node("/", tree(rng, 0, names), leaf("num", "50.0")))
    return node(f, tree(rng, d - 1, names))


def text(x):
    n = x["n"]
    if n in ("var", "num"):
        return x["t"]
    a = [text(y) for y in x["a"]]
    return "(%s%s%s)" % (a[0], n, a[1]) if len(a) == 2 else "(-%s)" % a[0] if n == "neg" else "%s(%s)" % (n, a[0])


def times(rng, tier):
    out = []
    for _ in range(150 if tier == "quick" else 3000):
        ops, ms = [], []
        for m in ["m", "n"][:rng.randint(1, 2)]:
            env = {k: "%.3f" % rng.uniform(0, 5) for k in rng.sample(["a", "b", "pi", "omega", "t0"], rng.randint(0, 3))}
            x = tree(rng, rng.randint(0, 4), sorted(env))
            ops.append(dict(op="mexpr", M=m, ast=x, env=env, text="".join("%s=%s; " % kv for kv in env.items()) + text(x)))
            ms.append(m)
        for _ in range(rng.randint(2, 6)):
            t = rng.choice([0.0, 1.0, -1.0, rng.uniform(-10, 10), rng.uniform(0, 1), 10 ** rng.uniform(-6, 2), 1e-9 * rng.randint(1, 999)])
            ops.append(dict(op="mval", M=rng.choice(ms), t=t))
        out.append(ops)
    return out


def amgx(rng, tier):
    names = ["eaf", "default", "pcg_noprec", "pcg_v", "pcg_w", "pcg_f", "agg_cheb4", "jacobi", "PCG_V"]
    return [[dict(op="amgx", name=rng.choice(names), tol=10 ** rng.uniform(-16, 2), itr=rng.randint(1, 100000), abs=rng.choice(["yes", "no", "none"])) for _ in range(3)]
            for _ in range(60 if tier == "quick" else 600)]
