"""Scenario generators for penalization, continuation and projection of densities."""
from inv import D
from plast import num, pr, some


def dens(rng):
    return rng.choice([0.0, 1.0, .5, rng.uniform(0, 1), rng.uniform(0, 1), round(rng.uniform(.01, .99), 2)])


def x(rng, kind):
    return pr(rng, rng.uniform(-2.5, 2.5) if kind == "heav" and rng.random() < .7 else dens(rng))


def par(rng, k):
    return {"Exponent": rng.choice([1.0, 2.0, 3.0, 1.5, 2.2, 5.0]), "Minimum Value": rng.choice([0.0, 1e-9, 1e-3, .1]),
            "Additive Continuation": rng.choice([.1, .25, .5, 1.0, 0.0]), "Penalty Exponent Upper Bound": rng.choice([1.0, 2.0, 3.0, 3.3, 4.5, 6.0]),
            "Regularization Length": rng.choice([.5, 1.0, 2.0, rng.uniform(.2, 3)])}[k]


KEYS = ["Exponent", "Minimum Value", "Additive Continuation", "Penalty Exponent Upper Bound", "Regularization Length"]


def pnew(rng, name, kind):
    froms = ["list"] if kind in ("ramp", "none") else ["list", "args"]
    if kind != "simp":
        froms.append("default")
    f = rng.choice(froms)
    e = dict(op="pnew", P=name, kind=kind)
    e["from"] = f
    if f == "list":
        e["p"] = {k: D(par(rng, k)) for k in KEYS if rng.random() < .6 and kind != "none"}
    elif f == "args":
        e["a"] = [par(rng, "Exponent"), par(rng, "Minimum Value")] if kind == "simp" else [par(rng, "Exponent"), par(rng, "Regularization Length"), par(rng, "Minimum Value")]
    return e


def workset(rng, kind, name):
    c = rng.randint(1, 3)
    if rng.random() < .5:
        return dict(op="papply", P=name, what="2", rho=[x(rng, kind) for _ in range(c)], r0=[[pr(rng) for _ in range(3)] for _ in range(c)], cells=some(rng, c))
    return dict(op="papply", P=name, what="3", rho=[x(rng, kind) for _ in range(c)],
                r0=[[[pr(rng) for _ in range(2)] for _ in range(3)] for _ in range(c)], cells=some(rng, c))


def wapply(rng, w):
    name, kind, dim, terms = w
    c = rng.randint(1, 3)
    what = rng.choice(["inout", "out", "inout1", "out1"])
    n = terms + rng.choice([0, 0, 1])
    mk = (lambda: [pr(rng) for _ in range(c)]) if what.endswith("1") else (lambda: [[pr(rng) for _ in range(n)] for _ in range(c)])
    e = dict(op="wapply", W=name, what=what, ctl=[[x(rng, kind) for _ in range(dim + 1)] for _ in range(c)], r0=mk(), cells=some(rng, c))
    if what.startswith("out"):
        e["a"] = mk()
    return e


def penalties(rng, tier):
    out = []
    for _ in range(260 if tier == "quick" else 4000):
        ops, ps, ws = [], {}, {}
        for _ in range(rng.randint(3, 14)):
            k = rng.random()
            if not ps or k < .08:
                n = rng.choice(["a", "b"])
                ps[n] = rng.choice(["simp", "simp", "ramp", "heav", "none"])
                ops.append(pnew(rng, n, ps[n]))
                continue
            n = rng.choice(sorted(ps))
            kind = ps[n]
            if k < .25:
                ops.append(dict(op="pupdate", P=n))
            elif k < .32 and kind == "simp":
                w = rng.choice(["pen", "min", "add"])
                ops.append(dict(op="pset", P=n, what=w, v=par(rng, {"pen": "Exponent", "min": "Minimum Value", "add": "Additive Continuation"}[w])))
            elif k < .42 and kind != "none":
                ops.append(dict(op="pparams", P=n, m={q: par(rng, q) for q in KEYS if rng.random() < .5}))
            elif k < .52 or not ws:
                w = rng.choice(["u", "v"])
                ws[w] = (w, kind, rng.choice([1, 2, 3]), rng.choice([1, 3, 6]))
                ops.append(dict(op="wnew", W=w, P=n, dim=ws[w][2], terms=ws[w][3]))
            elif k < .6:
                ops.append(dict(op="wupdate", W=rng.choice(sorted(ws))))
            elif k < .74:
                ops.append(wapply(rng, ws[rng.choice(sorted(ws))]))
            elif k < .86:
                ops.append(dict(op="peval", P=n, x=[x(rng, kind) for _ in range(rng.randint(1, 4))]))
            else:
                ops.append(workset(rng, kind, n))
        for n in sorted(ps):
            ops.append(dict(op="peval", P=n, x=[x(rng, ps[n]) for _ in range(3)]))
        for w in sorted(ws):
            ops.append(wapply(rng, ws[w]))
        out.append(ops)
    for _ in range(40 if tier == "quick" else 400):
        d, c = rng.choice([1, 2, 3]), rng.randint(1, 3)
        out.append([dict(op="cell", dim=d, phi=[rng.choice([.25, .5, rng.uniform(0, 1)]) for _ in range(d + 1)], ctl=[[x(rng, "simp") for _ in range(d + 1)] for _ in range(c)],
                         r0=[[pr(rng) for _ in range(d + 1 + rng.choice([0, 1]))] for _ in range(1)] * c, pen=[pr(rng) for _ in range(c)], cells=some(rng, c))])
    return out


def projections(rng, tier):
    out = []
    for _ in range(260 if tier == "quick" else 4000):
        ops, js = [], {}
        for _ in range(rng.randint(2, 10)):
            if not js or rng.random() < .12:
                n = rng.choice(["a", "b"])
                js[n] = rng.choice(["tanh", "tanh", "heav"])
                f = rng.choice(["list", "args", "default"] if js[n] == "tanh" else ["args", "default"])
                e = dict(op="jnew", J=n, kind=js[n])
                e["from"] = f
                if f == "list":
                    e["p"] = {k: D(v) for k, v in (("Beta", beta(rng)), ("Eta", eta(rng))) if rng.random() < .6}
                elif f == "args":
                    e["a"] = [beta(rng), eta(rng)] if js[n] == "tanh" else [beta(rng)]
                ops.append(e)
                continue
            n = rng.choice(sorted(js))
            k = rng.random()
            if k < .4:
                w = rng.choice(["beta", "eta", "both"]) if js[n] == "tanh" else "beta"
                ops.append(dict(op="jset", J=n, what=w, beta=beta(rng), eta=eta(rng)))
            elif k < .7:
                ops.append(dict(op="jeval", J=n, x=[pr(rng, dens(rng)) for _ in range(rng.randint(1, 4))]))
            else:
                m = rng.randint(1, 4)
                ops.append(dict(op="japply", J=n, ctl=[[pr(rng, dens(rng)) for _ in range(m)] for _ in range(rng.randint(1, 3))]))
        for n in sorted(js):
            ops.append(dict(op="jeval", J=n, x=[pr(rng, dens(rng)) for _ in range(3)]))
        out.append(ops)
    return out


def beta(rng):
    return rng.choice([1.0, 10.0, 5.0, .5, rng.uniform(.2, 20)])


def eta(rng):
    return rng.choice([0.0, .5, 1.0, .25, rng.uniform(0, 1)])
