"""Scenario generators for models that change in time."""
import fe
import inv
from fe import B, Criteria, I, L, Model, S, some
from material import D
from plast import num


class Changing(Model):
    def __init__(self, rng, kind, phys, d, most=3):
        self.kind = kind
        self.vals = [v for v in fe.VAL if not v[2]] if kind == "Parabolic" else fe.VAL + [("2.0*t-1.0", -1.0, 2.0), ("3.0-t", 3.0, -1.0)]
        super().__init__(rng, phys, d, most)
        self.o["kind"] = kind

    def penalty(self, kinds=None):
        super().penalty(kinds or ["SIMP", "RAMP", "Heaviside"])

    def mass(self, tame=False):
        rng = self.rng
        one = (lambda: round(rng.uniform(.5, 3), 3)) if tame else (lambda: num(rng))
        small = (lambda: round(rng.uniform(-.05, .05), 3)) if tame else (lambda: num(rng))
        q = {}
        non = rng.random() < .5
        if non:
            q["Temperature Dependent"] = B(True)
        for n in ("Mass Density", "Specific Heat"):
            q[n] = L({"c0": D(one()), "c1": D(small()), "c2": D(small())}) if non and rng.random() < .7 else D(one())
        return {"Thermal Mass": L(q)}

    def material(self):
        m = super().material()
        return dict(m, **self.mass()) if self.kind == "Parabolic" else m

    def loads(self, most=3):
        super().loads(most)
        self.p.pop("Cell Problem Forcing", None)
        if self.kind == "Parabolic":
            self.p.pop("Body Loads", None)

    def outputs(self):
        if self.rng.random() < .5:
            self.sec["Plottable"] = {"t": "as", "as": some(self.rng, ["strain", "stress", "velgrad", "tgrad", "flux", "Vonmises"], 0)}

    def tres(self):
        rng = self.rng
        f = lambda: self.field() if rng.random() < .9 else [0.0] * (len(self.X) * self.nd)
        return dict(op="tres", M="m", u=f(), v=f(), a=f(), z=self.design(), dt=rng.choice([.5, 1.0, .125]), t=rng.choice([0.0, 1.0, 2.5]),
                    du=self.field(), dv=self.field(), da=self.field(), **self.dirs())


def pick(rng, kinds, most):
    d = rng.choice([1, 2, 2, 3])
    k, ph = rng.choice(kinds)
    return Changing(rng, k, ph, d, most[d])


def residuals(*kinds):
    def gen(rng, tier):
        out = []
        for _ in range(160 if tier == "quick" else 2500):
            m = pick(rng, kinds, {1: 4, 2: 4, 3: 2})
            sc = [m.whole()]
            if rng.random() < .2:
                if m.kind == "Parabolic" and rng.random() < .3:
                    mat = rng.choice(list(m.p["Material Models"]["l"].values()))["l"]
                    if rng.random() < .3:
                        mat.pop("Thermal Mass")
                    else:
                        mat["Thermal Mass"]["l"].pop(rng.choice(["Mass Density", "Specific Heat"]))
                else:
                    m.spoil()
                    if m.kind == "Parabolic":
                        m.p.pop("Body Loads", None)
            if rng.random() < .04 and m.sides:
                m.sides.pop(rng.choice(sorted(m.sides)), None)
            for _ in range(rng.choice([1, 1, 2])):
                sc.append(m.tres())
            out.append(sc)
        return out
    return gen


class Sums(Criteria):
    """Criteria that add up over the steps."""
    def over(self):
        m, rng = self.m, self.rng
        fs = ["Internal Elastic Energy", "Stress P-Norm"] if m.kind == "Hyperbolic" else ["Internal Thermal Energy", "Temperature Average"] if m.phys == "Thermal" else ["Internal Thermoelastic Energy"]
        f = rng.choice(fs)
        q = {"Type": S("Scalar Function"), "Scalar Function Type": S(f), "Penalty Function": self.pen(f, True)}
        if f == "Stress P-Norm":
            q.update(inv.norm(rng))
        n = self.name()
        self.q[n] = L(q)
        return n


def start(m):
    """Fields of position, and which variables start from them."""
    rng = m.rng
    names = some(rng, ["wave", "hot", "zero", "bump"])
    m.p["Computed Fields"] = L({n: L({"Function": m.fn()}) for n in names})
    axes = ["X", "Y", "Z"][:m.d]
    vs = ["Temperature"] if m.phys == "Thermal" else ["Displacement " + a for a in axes] + (["Temperature"] if m.phys != "Mechanics" else ["Velocity " + a for a in axes])
    m.p["Initial State"] = L({v: L({"Computed Field": S(rng.choice(names))}) for v in some(rng, vs)})
    if rng.random() < .1:
        m.p["Initial State"]["l"]["note"] = rng.choice([S("x"), D(1.0)])


def spoil(m, c):
    rng, p = m.rng, m.p
    k = rng.randint(0, 9)
    if k <= 2:
        c.spoil(rng.choice(sorted(c.q)))
    elif k == 3:
        c.q["odd"] = D(1.0)
    elif k == 4:
        p["Linear Solver"]["l"]["Solver Stack"] = S(rng.choice(["Tpetra", "epetra", "AmgX"]))
    elif k == 5:
        b = "Displacement Boundary Conditions" if m.kind == "Hyperbolic" else "Essential Boundary Conditions"
        fe.spoil_supports(m, p.setdefault(b, L({}))["l"])
    elif k == 6 and "Time Integration" in p:
        q = p["Time Integration"]["l"]
        q.pop(rng.choice(sorted(q)), None) if q else None
    else:
        start(m)
        r = rng.randint(0, 5)
        q = p["Initial State"]["l"]
        one = rng.choice(sorted(n for n in q if q[n]["t"] == "l"))
        if r == 0:
            p.pop("Computed Fields")
        elif r == 1:
            q[rng.choice(["Displacement", "temperature", "Velocity X" if m.kind == "Parabolic" else "Temperature", "Displacement Z" if m.d < 3 or m.phys == "Thermal" else "Z"])] = q[one]
        elif r == 2:
            q[one] = L({})
        elif r == 3:
            q[one] = L({"Computed Field": S("nothing")})
        elif r == 4:
            p["Computed Fields"]["l"]["more"] = rng.choice([D(2.0), L({}), L({"Function": D(2.0)})])
        else:
            p["Computed Fields"] = L({})


def steady(m):
    rng = m.rng
    q = fe.steady(m)
    if m.kind == "Parabolic":
        return dict(q, **m.mass(True))
    p = q["Isotropic Linear Elastic"]["l"]
    if rng.random() < .8:
        p["Mass Density"] = D(round(rng.uniform(.5, 3), 3))
    for r in ("RayleighA", "RayleighB"):
        if rng.random() < .4:
            p[r] = D(round(rng.uniform(0, .5), 3))
    return q


def clock(m):
    rng, q = m.rng, {}
    hyper = m.kind == "Hyperbolic"
    if hyper or rng.random() < .95:
        q["Number Time Steps"] = I(rng.choice([1, 2, 2, 3, 3, 4]) if m.d < 3 else rng.choice([2, 3]))
    if hyper or rng.random() < .8:
        q["Time Step"] = D(rng.choice([.5, .25, 1.0, .1]))
    if hyper:
        q.update({"Newmark Gamma": D(rng.choice([.5, .5, .6, .75])), "Newmark Beta": D(rng.choice([.25, .25, .3, .5]))})
    elif rng.random() < .6:
        q["Trapezoid Alpha"] = D(rng.choice([.5, 1.0, .75]))
    m.p["Time Integration"] = L(q)


def problems(*kinds):
    def gen(rng, tier):
        out = []
        for _ in range(120 if tier == "quick" else 1800):
            m = pick(rng, kinds, {1: 4, 2: 3, 3: 2})
            hyper = m.kind == "Hyperbolic"
            fe.solvable(m)
            m.p["Material Models"] = L({k: L(steady(m)) for k in m.p["Material Models"]["l"]})
            m.p["Linear Solver"] = L({"Iterations": I(300), "Tolerance": D(1e-14)})
            fe.clamp(m)
            bcs = m.p.pop("Essential Boundary Conditions")
            if not hyper:
                for b in bcs["l"].values():
                    if "Function" in b["l"]:
                        b["l"].pop("Function")
                        b["l"].update({"Type": S("Fixed Value"), "Value": D(.5)})
            if m.phys != "Thermomechanics" and rng.random() < .25:
                bcs["l"].pop(rng.choice(sorted(bcs["l"])))
            m.p["Displacement Boundary Conditions" if hyper else "Essential Boundary Conditions"] = bcs
            clock(m)
            if rng.random() < .7:
                start(m)
            if not hyper and rng.random() < (.6 if m.phys == "Thermal" else .25):
                q = {"Maximum Iterations": I(rng.choice([1, 2, 3]))}
                if rng.random() < .3:
                    q["Increment Tolerance"] = D(rng.choice([1e-3, .1, 10.0, 1e-12]))
                if rng.random() < .3:
                    q["Residual Tolerance"] = D(rng.choice([1e-3, .1, 10.0, 1e-12, 1e6]))
                m.p["Newton Iteration"] = L(q)
            c = Sums(m)
            keep = m.sec["Penalty Function"]
            names = [c.over() for _ in range(rng.choice([1, 1, 2]))]
            if not hyper and rng.random() < .2:
                n = c.fun(True) if rng.random() < .6 else c.composite(True, 1)
                for k in {n} | fe.parts(c.q, n):
                    c.q[k]["l"]["Linear"] = B(True)
                names.append(n)
            if any(len(q["l"].get("Properties", {}).get("as", [])) == 10 for q in c.q.values()):
                continue
            m.sec["Penalty Function"] = keep
            for k in m.p:
                if k == "Criteria" or "Natural" in k:
                    m.p[k] = fe.tame(m.p[k])
            c.q = m.p["Criteria"]["l"]
            if rng.random() < .15:
                spoil(m, c)
            steps = m.p["Time Integration"]["l"].get("Number Time Steps", I(1))["i"]
            sc = [m.o, dict(op="tproblem", M="m", kind=m.kind)]
            fixed = fe.moves_with_mesh(m)
            if not hyper and rng.random() < .1:
                sc.append(crit(m, rng.choice(names), m.design(), 0, fixed))
            for _ in range(rng.choice([1, 1, 2])):
                z = [round(rng.uniform(.3, 1), 3) for _ in m.X] if rng.random() < .8 else [1.0 for _ in m.X]
                sc.append(dict(op="tsolve", M="m", kind=m.kind, z=z))
                for n in names:
                    sc.append(crit(m, n if rng.random() < .95 else "nothing", z if rng.random() < .9 else [round(rng.uniform(.3, 1), 3) for _ in m.X],
                                   steps if rng.random() < .2 else 0, fixed))
            out.append(sc)
        return out
    return gen


def crit(m, n, z, given, fixed):
    f = lambda: [m.field() for _ in range(given)]
    o = dict(op="tcrit", M="m", kind=m.kind, name=n, z=z, u=f(), v=f(), a=f() if m.kind == "Hyperbolic" else [], xfirst=m.rng.random() < .5, **m.dirs())
    if fixed:
        o["dx"] = [[0.0] * m.d for _ in m.X]
    return o
