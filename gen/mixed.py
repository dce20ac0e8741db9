"""Scenarios for mixed (stabilised) forms: residuals, projections, criteria."""
import elastic
import fe
from fe import D, I, L, S, num, some


class Model(fe.Model):
    def __init__(self, rng, phys, d, most=3, M="m"):
        super().__init__(rng, phys, d, most, M)
        self.nd = d + (1 if phys == "StabilizedMechanics" else 2)

    def material(self):
        kind = "elastic" if self.phys == "StabilizedMechanics" else "thermo"
        while True:
            n, p, eq = elastic.MAKE[kind](self.rng, self.d)
            if eq == "none":
                return {n: L(p)}

    def domains(self):
        while True:
            self.blocks.clear()
            super().domains()
            b = [self.blocks[q["l"]["Element Block"]["s"]] for q in self.p["Spatial Model"]["l"]["Domains"]["l"].values()]
            if all(b) and sum(map(len, b)) == len(set(sum(b, []))):
                break
        if self.rng.random() < .5:
            self.p["Material Models"]["l"]["Pressure Scaling"] = D(self.rng.choice([2.0, .25, 1000.0, elastic.mag(self.rng)]))

    def projection(self):
        if self.rng.random() < .6:
            keep = self.sec.pop("Penalty Function", None)
            self.penalty()
            self.p["State Gradient Projection"] = L({"Penalty Function": self.sec.pop("Penalty Function")})
            if keep is not None:
                self.sec["Penalty Function"] = keep

    lists = dict(StabilizedMechanics=lambda d: [("Mechanical Natural Boundary Conditions", d)],
                 StabilizedThermomechanics=lambda d: [("Mechanical Natural Boundary Conditions", d), ("Thermal Natural Boundary Conditions", 1)])

    def outputs(self):
        if self.rng.random() < .5:
            self.sec["Plottable"] = {"t": "as", "as": some(self.rng, ["pressure", "deviatoric stress", "stress"], 0)}

    def whole(self):
        super().whole()
        self.projection()
        return self.o

    def spoil(self):
        if self.rng.random() < .2:
            self.p["State Gradient Projection"] = L({"Penalty Function": L(self.rng.choice([{"Type": S("None")}, {"Type": S("simp")}, {"Type": S("")}, {}]))})
        else:
            super().spoil()

    def mres(self):
        return dict(self.res(), op="mres", n=self.field(len(self.X) * self.d), dn=self.field(len(self.X) * self.d), E=self.E)

    def proj(self):
        k = len(self.X) * self.d
        return dict(op="proj", M=self.o["M"], u=self.field(k), du=self.field(k), n=self.field(len(self.X)), dn=self.field(len(self.X)), z=self.design(), E=self.E, **self.dirs())


class Criteria(fe.Criteria):
    def fun(self, lin):
        m, rng = self.m, self.rng
        f = "Volume" if lin else rng.choice(["Internal Elastic Energy"] * 5 + ["Stress P-Norm"])
        m.penalty(["SIMP", "RAMP", "Heaviside"] + ([] if lin else ["NoPenalty", None]))
        n = self.name()
        self.q[n] = L({"Type": S("Scalar Function"), "Scalar Function Type": S(f), "Penalty Function": m.sec.pop("Penalty Function")})
        return n


BOTH = ("StabilizedMechanics", "StabilizedThermomechanics")


def residuals(rng, tier):
    out = []
    for _ in range(150 if tier == "quick" else 2500):
        d = rng.choice([2, 2, 3])
        m = Model(rng, rng.choice(BOTH), d, most={2: 4, 3: 2}[d])
        sc = [m.whole()]
        if rng.random() < .2:
            m.spoil()
        if rng.random() < .04:
            m.sides.pop(rng.choice(sorted(m.sides)), None) if m.sides else None
        if rng.random() < .35:
            c = Criteria(m)
            keep = m.sec.get("Penalty Function")
            l = rng.random() < .2
            n = c.solution() if not l and rng.random() < .2 else c.fun(l)
            if keep is not None:
                m.sec["Penalty Function"] = keep
            if rng.random() < .2:
                c.spoil(n)
            sc += [dict(op="crit", M="m", name=n, linear=l), fe.evaluation(m, c, n, l)]
        else:
            sc.append(m.mres())
            if rng.random() < .5:
                sc.append(m.proj())
            if rng.random() < .2:
                sc.append(m.mres())
        out.append(sc)
    return out


def steady(m):
    """Materials of ordinary size."""
    rng = m.rng
    p = {"Youngs Modulus": D(round(rng.uniform(1, 4), 2)), "Poissons Ratio": D(rng.choice([0.0, .25, .3, .4]))}
    if rng.random() < .7:
        p["Pressure Scaling"] = D(rng.choice([.5, 1.0, 2.0, 3.0]))
    if m.phys == "StabilizedMechanics":
        return {"Isotropic Linear Elastic": L(p)}
    p.update({"Reference Temperature": D(round(rng.uniform(-1, 1), 2)), "Thermal Expansion Coefficient": D(round(rng.uniform(-.5, .5), 2)), "Thermal Conductivity Coefficient": D(round(rng.uniform(.5, 3), 2))})
    if rng.random() < .4:
        p["Temperature Scaling"] = D(rng.choice([.5, 2.0]))
    return {"Isotropic Linear Thermoelastic": L(p)}


def solvable(m):
    rng = m.rng
    m.penalty()
    pf = m.sec["Penalty Function"]["l"]
    pf["Minimum Value"] = D(rng.choice([.25, .125, .01]))
    pf.pop("Regularization Length", None)
    m.domains()
    cells = list(range(len(m.E)))
    bs = [q["l"]["Element Block"]["s"] for _, q in sorted(m.p["Spatial Model"]["l"]["Domains"]["l"].items())]
    cut = rng.randint(1, len(cells)) if len(bs) == 1 else rng.randint(1, max(1, len(cells) - 1))
    rng.shuffle(cells)
    if len(bs) == 1 or len(cells) < 2:
        m.p["Spatial Model"]["l"]["Domains"]["l"] = dict(sorted(m.p["Spatial Model"]["l"]["Domains"]["l"].items())[:1])
        m.blocks[bs[0]] = cells
    else:
        m.blocks[bs[0]], m.blocks[bs[1]] = cells[:cut], cells[cut:]
    scale = m.p["Material Models"]["l"].get("Pressure Scaling")
    m.p["Material Models"] = L({k: L(steady(m)) for k in m.p["Material Models"]["l"] if k != "Pressure Scaling"})
    if scale is not None:
        m.p["Material Models"]["l"]["Pressure Scaling"] = D(rng.choice([.5, 2.0, 3.0]))
    m.loads()
    for k in m.p:
        if "Natural" in k or k == "Body Loads":
            m.p[k] = fe.tame(m.p[k])
    m.p.pop("Cell Problem Forcing", None)
    m.projection()
    q = m.p.get("State Gradient Projection")
    if q:
        q["l"]["Penalty Function"]["l"]["Minimum Value"] = D(rng.choice([.25, .125]))
        q["l"]["Penalty Function"]["l"].pop("Regularization Length", None)


def problems(rng, tier):
    out = []
    for _ in range(110 if tier == "quick" else 1500):
        d = rng.choice([2, 2, 2, 3])
        phys = rng.choice(BOTH[:1] * 3 + BOTH[1:])
        while True:
            m = Model(rng, phys, d, most={2: 4, 3: 2}[d])
            if len(m.E) > 1 or rng.random() < .2:
                break
        solvable(m)
        if rng.random() < .8:                # loads whose dependence on the positions is a known finding hide what else depends on them
            m.p.pop("Body Loads", None)
            for k in m.p:
                if "Natural" in k:
                    m.p[k] = L({n: b for n, b in m.p[k]["l"].items() if b["t"] != "l" or b["l"].get("Type", {}).get("s") != "Uniform Pressure"})
        m.p["Linear Solver"] = L({"Iterations": I(300), "Tolerance": D(1e-14)})
        if rng.random() < .3:
            m.p["Linear Solver"]["l"]["Solver Stack"] = S("Epetra")
        fe.clamp(m)
        q = m.p["Essential Boundary Conditions"]["l"]
        if rng.random() < .7:
            q.pop("bc %d" % d)               # the pressure need not be held
        steps = rng.choice([2] * 12 + [3, 1])
        if steps > 1 or rng.random() < .5:
            m.p["Time Stepping"] = L({"Number Time Steps": I(steps), "Time Step": D(rng.choice([1.0, .5]))})
        if rng.random() < .6:
            m.p["Newton Iteration"] = L({"Number Iterations": I(rng.choice([0, 1, 2, 3, 3, 4, 5] if d == 2 else [1, 2, 3]))})
        c = Criteria(m)
        keep = m.sec["Penalty Function"]
        names = []
        for _ in range(rng.choice([1, 1, 2])):
            l = rng.random() < .12
            if l:
                n = c.fun(True)
                c.q[n]["l"]["Linear"] = fe.B(True)
            elif m.phys == "StabilizedMechanics" and rng.random() < .65:
                n = c.fun(False)
                while c.q[n]["l"]["Scalar Function Type"]["s"] != "Internal Elastic Energy":
                    c.q.pop(n)
                    n = c.fun(False)
            else:
                n = c.solution()
            names.append(n)
        m.sec["Penalty Function"] = keep
        m.p["Criteria"] = fe.tame(m.p["Criteria"])
        c.q = m.p["Criteria"]["l"]
        k = rng.random()
        if k < .05:
            c.spoil(rng.choice(sorted(c.q)))
        elif k < .07:
            c.q["odd"] = D(1.0)
        elif k < .10 and "Time Stepping" in m.p:
            m.p["Time Stepping"]["l"].pop(rng.choice(["Number Time Steps", "Time Step"]))
        elif k < .12:
            m.p["Newton Iteration"] = L({"Maximum Iterations": I(3)})
        elif k < .15:
            fe.spoil_supports(m, q) if rng.random() < .6 else m.p.pop("Essential Boundary Conditions")
        elif k < .17:
            m.p["Essential Boundary Conditions"] = L({})
        elif k < .19:
            m.p["Linear Solver"]["l"]["Solver Stack"] = S(rng.choice(["Tpetra", "epetra", "AmgX"]))
        sc = [m.o, dict(op="problem", M="m"), dict(op="bcs", M="m")]
        if rng.random() < .2:
            sc.insert(rng.choice([2, 3, 3]), fe.directly(m))
        fixed = fe.moves_with_mesh(m)
        for _ in range(rng.choice([1, 1, 2])):
            z = [round(rng.uniform(.3, 1), 3) for _ in m.X] if rng.random() < .8 else [1.0 for _ in m.X]
            sc.append(dict(op="msolve", M="m", z=z))
            for n in names if steps < 3 else []:
                if rng.random() < .04:
                    n = "nothing"
                o = dict(op="mcrit", M="m", name=n, z=z, u=[], xfirst=rng.random() < .5, **m.dirs())
                if rng.random() < .2:
                    o["u"] = m.field()
                if rng.random() < .1:
                    o["z"] = [round(rng.uniform(.3, 1), 3) for _ in m.X]
                if fixed:
                    o["dx"] = [[0.0] * m.d for _ in m.X]
                sc.append(o)
        out.append(sc)
    return out
