"""Scenario generators for finite element models on small meshes of simplices."""
import elastic
from material import D, L
from plast import num

S = lambda s: dict(t="s", s=s)
I = lambda i: dict(t="i", i=i)
NS = {1: 2, 2: 3, 3: 4}
SIDES = {1: [[0], [1]], 2: [[0, 1], [1, 2], [2, 0]], 3: [[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]]}


def det(d, x):
    e = [[b - a for a, b in zip(x[0], y)] for y in x[1:]]
    if d == 1:
        return e[0][0]
    if d == 2:
        return e[0][0] * e[1][1] - e[0][1] * e[1][0]
    c = [e[1][1] * e[2][2] - e[1][2] * e[2][1], e[1][2] * e[2][0] - e[1][0] * e[2][2], e[1][0] * e[2][1] - e[1][1] * e[2][0]]
    return sum(a * b for a, b in zip(e[0], c))


def even(rng, d, c):
    """An even permutation of the corners of a cell."""
    if d == 1:
        return c
    for _ in range(rng.randint(0, 3)):
        i = rng.sample(range(d + 1), 3)
        t = list(c)
        t[i[0]], t[i[1]], t[i[2]] = c[i[1]], c[i[2]], c[i[0]]
        c = t
    return c


def mesh(rng, d, most):
    """-> coordinates, cells (positive orientation)"""
    q = lambda: rng.randint(-1, 1) / 8.0
    n = rng.randint(1, most)
    if d == 1:
        X = [[i + q()] for i in range(n + 1)]
        E = [[i, i + 1] for i in range(n)]
    elif d == 2:
        X, E = [[0, 0], [1 + q(), q()], [q(), 1 + q()], [1 + q(), 1 + q()], [2 + q(), q()], [2 + q(), 1 + q()]], [[0, 1, 2], [1, 3, 2], [1, 4, 3], [4, 5, 3]]
        E = E[:n]
    else:
        X = [[0, 0, 0], [1 + q(), q(), q()], [q(), 1 + q(), q()], [q(), q(), 1 + q()]]
        E = [[0, 1, 2, 3]]
        while len(E) < n:           # a new cell on a side of an old one
            X.append([1 + q(), 1 + q(), 1 + q()] if len(E) == 1 else [rng.choice([-1, 2]) + q(), .5 + q(), .5 + q()] if len(E) == 2 else [.5 + q(), .5 + q(), -1 + q()])
            t = [1, 2, 3] if len(E) == 1 else rng.choice([[0, 2, 3], [0, 1, 2], [0, 1, 3]])
            c = t + [len(X) - 1]
            if det(3, [X[i] for i in c]) < 0:
                c = [t[1], t[0], t[2], len(X) - 1]
            if det(3, [X[i] for i in c]) == 0:
                X.pop()
                break
            E.append(c)
    used = sorted({i for c in E for i in c})
    p = list(range(len(used)))
    rng.shuffle(p)
    at = {v: p[i] for i, v in enumerate(used)}
    Y = [None] * len(used)
    for v in used:
        Y[at[v]] = [float(a) for a in X[v]]
    E = [even(rng, d, [at[i] for i in c]) for c in E]
    rng.shuffle(E)
    assert all(det(d, [Y[i] for i in c]) > 0 for c in E)
    return Y, E


def some(rng, xs, least=1):
    xs = list(xs)
    rng.shuffle(xs)
    return xs[:rng.randint(min(least, len(xs)), len(xs))]


FUN = {1: [("3.0", [3, 0, 0, 0, 0]), ("x", [0, 1, 0, 0, 0]), ("1.0+2.0*x", [1, 2, 0, 0, 0]), ("x*x-0.5", [-.5, 0, 0, 0, 1])],
       2: [("y", [0, 0, 1, 0, 0]), ("x-2.0*y+1.0", [1, 1, -2, 0, 0]), ("x*x+y", [0, 0, 1, 0, 1])],
       3: [("z", [0, 0, 0, 1, 0]), ("x+y*2.0-z", [0, 1, 2, -1, 0]), ("(x*x+z)/2.0", [0, 0, 0, .5, .5])]}
VAL = [("2.5", 2.5, 0.0), ("-3.0", -3.0, 0.0), ("1.0+2.0*3.0", 7.0, 0.0), ("t+4.0", 4.0, 1.0), ("0.0", 0.0, 0.0)]


class Model:
    vals, kind = VAL, "Elliptic"
    lists = dict(Mechanics=lambda d: [("Natural Boundary Conditions", d)], Thermal=lambda d: [("Natural Boundary Conditions", 1)],
                 Thermomechanics=lambda d: [("Mechanical Natural Boundary Conditions", d), ("Thermal Natural Boundary Conditions", 1)],
                 Electromechanics=lambda d: [("Mechanical Natural Boundary Conditions", d), ("Electrical Natural Boundary Conditions", 1)])

    def __init__(self, rng, phys, d, most=3, M="m"):
        self.rng, self.phys, self.d = rng, phys, d
        self.nd = {"Mechanics": d, "Thermal": 1}.get(phys, d + 1)
        self.X, self.E = mesh(rng, d, most)
        self.exprs = {}
        self.sides, self.nsets, self.blocks = {}, {}, {}
        self.o = dict(op="model", M=M, phys=phys, dim=d, X=self.X, E=self.E, sideperm=rng.randint(0, 2), unsorted=rng.random() < .5,
                      blocks=self.blocks, sides=self.sides, nsets=self.nsets, exprs=self.exprs)
        self.p = self.o["params"] = {"PDE Constraint": S(self.kind), self.kind: L({})}
        self.sec = self.p[self.kind]["l"]

    def fn(self):
        t, c = self.rng.choice([f for k in range(1, self.d + 1) for f in FUN[k]])
        self.exprs[t] = [float(x) for x in c]
        return S(t)

    def val(self):
        if self.rng.random() < .6:
            return D(num(self.rng))
        t, v, w = self.rng.choice(self.vals)
        self.exprs[t] = [v, w, 0.0, 0.0, 0.0]
        return S(t)

    # -- parts of the input
    def penalty(self, kinds=None):
        rng, q = self.rng, {}
        k = rng.choice(kinds or (["SIMP", "RAMP", "Heaviside"] if self.phys == "Thermal" else ["SIMP", "RAMP", "Heaviside", "NoPenalty", None]))
        if k:
            q["Type"] = S(k)
        if rng.random() < .6:
            q["Exponent"] = D(rng.choice([1.0, 2.0, 3.0, 4.0]) if k != "Heaviside" else rng.choice([1.0, 2.0]))
        if rng.random() < .5:
            q["Minimum Value"] = D(rng.choice([0.0, 1e-9, 1e-3, .25]))
        if k == "Heaviside" and rng.random() < .5:
            q["Regularization Length"] = D(rng.choice([.5, 2.0]))
        self.sec["Penalty Function"] = L(q)

    def material(self):
        rng, d = self.rng, self.d
        kind = {"Mechanics": "elastic", "Electromechanics": "electro", "Thermomechanics": "tm"}.get(self.phys)
        if kind is None:
            if rng.random() < .5:
                k = L(self.tens(d, [""]))
                return {"Thermal Conduction": L({"Thermal Conductivity": k})}
            return {"Thermal Conduction": L({"Temperature Dependent": dict(t="b", b=True), "Thermal Conductivity": L(self.tens(d, ["0", "1", "2"]))})}
        while True:
            n, p, eq = elastic.MAKE[kind](rng, d)
            if eq == "none":
                return {n: L(p)}

    def tens(self, n, pres):
        q = {}
        for pre in pres:
            q.update(elastic.coeff(self.rng, n, pre, 1))
        return q

    def domains(self):
        rng, cells = self.rng, list(range(len(self.E)))
        n = rng.choice([1, 1, 2])
        names = rng.sample(["block_1", "a", "core"], n)
        rng.shuffle(cells)
        cut = rng.randint(1, len(cells)) if n == 2 else len(cells)
        for i, b in enumerate(names):
            self.blocks[b] = cells[:cut] if i == 0 else cells[cut:] if rng.random() < .8 else some(rng, cells)
        if rng.random() < .3:
            self.blocks["unused"] = some(rng, cells)
        mats = {m: L(self.material()) for m in rng.sample(["steel", "pzt", "m2"], rng.randint(1, 2))}
        self.p["Material Models"] = L(mats)
        doms = {}
        for i, b in enumerate(names):
            doms["Domain %d" % i] = L({"Element Block": S(b), "Material Model": S(rng.choice(sorted(mats)))})
        self.p["Spatial Model"] = L({"Domains": L(doms)})

    def side(self):
        rng, d = self.rng, self.d
        n = rng.choice(["top", "left", "ss_1"])
        if n not in self.sides:
            count = {}
            for c, e in enumerate(self.E):
                for k in range(d + 1):
                    count.setdefault(tuple(sorted(e[i] for i in SIDES[d][k])), []).append([c, k])
            outer = [v[0] for v in count.values() if len(v) == 1]
            inner = [rng.choice(v) for v in count.values() if len(v) == 2]
            self.sides[n] = some(rng, outer)[:4] + (some(rng, inner, 0)[:1] if rng.random() < .25 else [])
        return n

    def loads(self, most=3):
        rng, d, ph = self.rng, self.d, self.phys
        for name, n in self.lists[ph](d):
            q = {}
            for i in range(rng.choice([0, 1, 1, 2, most])):
                k = rng.random()
                b = {"Sides": S(self.side())}
                if k < .3:
                    b.update({"Type": S("Uniform"), "Values": dict(t="a", a=[num(rng) for _ in range(n)])})
                elif k < .4:
                    vs = [self.val() for _ in range(n)]
                    if all(v["t"] == "s" for v in vs):
                        b.update({"Type": S("Uniform"), "Values": {"t": "as", "as": [v["s"] for v in vs]}})
                    else:
                        b.update({"Type": S("Uniform"), "Value": vs[0]})
                elif k < .6:
                    b.update({"Type": S("Uniform"), "Value": self.val()})
                    if rng.random() < .7:
                        b["Index"] = I(rng.randint(0, n - 1))
                elif k < .8 and n == d and ph != "Thermal":
                    b.update({"Type": S("Uniform Pressure"), "Value": D(num(rng))})
                else:
                    b.update({"Type": S("Uniform Component"), "Value": D(num(rng)), "Component": S(rng.choice(["xX", "yY", "zZ"][:n][rng.randint(0, n - 1)]))})
                q["load %d" % i] = L(b)
            if q or rng.random() < .3:
                self.p[name] = L(q)
        if rng.random() < .4:
            q = {}
            for i in range(rng.randint(0, 2)):
                q["body %d" % i] = L({"Function": self.fn()})
                if rng.random() < .7:
                    q["body %d" % i]["l"]["Index"] = I(rng.randint(0, self.nd - 1))
            self.p["Body Loads"] = L(q)
        if ph == "Mechanics" and rng.random() < .12:
            self.p["Cell Problem Forcing"] = L({"Column Index": I(rng.randint(0, {1: 1, 2: 3, 3: 6}[d] - 1))})

    def spoil(self):
        """An incomplete or contradictory input."""
        rng, p = self.rng, self.p
        lists = [k for k in p if "Natural" in k and p[k]["l"]]
        k = rng.randint(0, 11)
        doms = p["Spatial Model"]["l"]["Domains"]["l"]
        one = doms[rng.choice(sorted(doms))]["l"]
        if k == 0:
            del p["Spatial Model"]
        elif k == 1:
            p["Spatial Model"] = L({})
        elif k == 2:
            one.pop(rng.choice(["Element Block", "Material Model"]))
        elif k == 3:
            one["Element Block"] = S("nowhere")
        elif k == 4:
            one["Material Model"] = S("nothing")
        elif k == 5:
            doms["extra"] = D(1.0)
        elif k == 6:
            p["Body Loads"] = L({"b": rng.choice([D(1.0), L({}), L({"Index": I(0)})])})
        elif k == 7:
            p[self.kind] = L({"Penalty Function": L(rng.choice([{}, {"Type": S("NoPenalty")}, {"Type": S("None")}]))})
        elif lists:
            q = p[rng.choice(lists)]["l"]
            n = rng.choice(sorted(q))
            if k == 8:
                q[n] = D(2.0)
            elif k == 9:
                q[n]["l"]["Type"] = rng.choice([S("Traction"), S("uniform")])
            elif k == 10:
                q[n]["l"].pop(rng.choice(["Type", "Sides"]))
            else:
                w = q[n]["l"]
                if w["Type"]["s"] == "Uniform":
                    if rng.random() < .5 and ("Values" in w or "Value" in w):
                        w.pop("Value", None)
                        w.pop("Values", None)
                    else:
                        w.update({"Value": D(1.0), "Values": dict(t="a", a=[1.0, 1.0, 1.0])})
                elif w["Type"]["s"] == "Uniform Component":
                    r = rng.random()
                    if r < .3:
                        w.pop("Value")
                    elif r < .6:
                        w.pop("Component")
                    else:
                        w["Component"] = S(rng.choice(["w", "xy", "", "y", "Z"]))
                else:
                    w.pop("Value")

    def outputs(self):
        rng = self.rng
        if rng.random() < .4:
            self.sec["Plottable"] = {"t": "as", "as": some(rng, ["strain", "stress", "Vonmises", "tgrad", "flux", "efield", "edisp"], 0)}

    def whole(self):
        self.penalty()
        self.outputs()
        self.domains()
        self.loads()
        return self.o

    # -- events
    def field(self, n=None):
        n = len(self.X) * self.nd if n is None else n
        return [round(self.rng.uniform(-2, 2), 3) if self.rng.random() < .8 else 0.0 for _ in range(n)]

    def design(self):
        k = self.rng.random()
        return [1.0 if k < .1 else self.rng.choice([0.0, 1.0, .5, round(self.rng.uniform(.05, 1), 3), round(self.rng.uniform(.05, 1), 3)]) for _ in self.X]

    def dirs(self):
        return dict(dz=self.field(len(self.X)), dx=[self.field(self.d) for _ in self.X])

    def res(self):
        return dict(op="res", M=self.o["M"], u=self.field(), z=self.design(), du=self.field(), **self.dirs())


def residuals(*phys):
    def gen(rng, tier):
        out = []
        for _ in range(160 if tier == "quick" else 2500):
            d = rng.choice([1, 2, 2, 3])
            m = Model(rng, rng.choice(phys), d, most={1: 4, 2: 4, 3: 3}[d])
            sc = [m.whole()]
            if rng.random() < .2:
                m.spoil()
            if rng.random() < .04:
                m.sides.pop(rng.choice(sorted(m.sides)), None) if m.sides else None
            for _ in range(rng.choice([1, 1, 2])):
                sc.append(m.res())
            out.append(sc)
        return out
    return gen


# ---- essential boundary conditions and criteria
TFUN = [("t", [0, 1, 0, 0, 0]), ("1.0+2.0*t", [1, 2, 0, 0, 0]), ("3.0", [3, 0, 0, 0, 0]), ("t*t-0.5", [-.5, 0, 0, 0, 1])]


def nodeset(m, name=None, least=1, most=9):
    n = name or m.rng.choice(["fix", "tip", "ns_1"])
    if n not in m.nsets:
        m.nsets[n] = some(m.rng, range(len(m.X)), least)[:most]
    return n


def supports(m, most=3):
    rng, q = m.rng, {}
    for i in range(rng.randint(0, most)):
        t = rng.choice(["Zero Value", "Fixed Value", "Fixed Value", "Time Dependent"])
        b = {"Type": S(t), "Sides": S(nodeset(m, least=0 if rng.random() < .1 else 1))}
        if rng.random() < .85:
            b["Index"] = I(rng.randint(0, m.nd - 1))
        if t == "Time Dependent" or (t == "Fixed Value" and rng.random() < .2):
            s, c = rng.choice(TFUN)
            m.exprs[s] = [float(x) for x in c]
            b["Function"] = S(s)
        elif t == "Fixed Value" or rng.random() < .2:
            b["Value"] = D(num(rng))
        q["bc %d" % i] = L(b)
    m.p["Essential Boundary Conditions"] = L(q)
    return q


def directly(m):
    """Conditions given as degrees of freedom and values, in any order."""
    rng = m.rng
    q = [(n * m.nd + i, 0.0 if rng.random() < .4 else round(rng.uniform(-1, 1), 3)) for n in m.nsets["base"] for i in range(m.nd)]
    rng.shuffle(q)
    v = [x for _, x in q]
    if rng.random() < .1:
        v.pop() if rng.random() < .5 else v.append(1.0)
    return dict(op="setbcs", M=m.o["M"], dofs=[g for g, _ in q], values=v)


def spoil_supports(m, q):
    rng = m.rng
    if not q:
        q["odd"] = rng.choice([D(1.0), S("x"), L({})])
        return
    n = rng.choice(sorted(q))
    b = q[n]["l"]
    k = rng.randint(0, 6)
    if k == 0:
        q[n] = D(1.0)
    elif k == 1:
        b["Type"] = S(rng.choice(["Fixed", "Zero", "", "fixed value"]))
    elif k == 2:
        b.pop(rng.choice(["Type", "Sides"]))
    elif k == 3:
        b["Index"] = I(rng.choice([-1, m.nd, m.nd + 1]))
    elif k == 4:
        b["Sides"] = S("nowhere")
    elif k == 5:
        b.pop("Value", None)
        b.pop("Function", None)
    else:
        m.exprs["t"] = [0.0, 1.0, 0.0, 0.0, 0.0]
        b.update({"Value": D(1.0), "Function": S("t")})


def essentials(rng, tier):
    out = []
    for _ in range(220 if tier == "quick" else 4000):
        d = rng.choice([1, 2, 3])
        m = Model(rng, rng.choice(["Mechanics", "Thermal", "Thermomechanics", "Electromechanics"]), d)
        m.whole()
        q = supports(m, 4)
        if rng.random() < .25:
            spoil_supports(m, q)
        sc = [m.o]
        for _ in range(rng.randint(1, 2)):
            sc.append(dict(op="ebc", M="m", time=rng.choice([0.0, 1.0, 2.5, num(rng)]),
                           scale={str(i): rng.choice([2.0, .5, 1000.0]) for i in some(rng, range(m.nd), 0)} if rng.random() < .3 else {}))
        out.append(sc)
    return out


class Criteria:
    """Fills the list Criteria of a model."""
    def __init__(self, m):
        self.m, self.rng = m, m.rng
        self.q = {}
        m.p["Criteria"] = L(self.q)
        self.base, self.n, self.wit = [], 0, {}

    def name(self):
        self.n += 1
        return "%s %d" % (self.rng.choice(["Objective", "Constraint", "My"]), self.n)

    def pen(self, f, lin):
        m, rng = self.m, self.rng
        kinds = ["SIMP", "RAMP", "Heaviside"]
        if not lin and m.phys != "Thermal":
            kinds.append(None)
        if not lin and m.phys in ("Mechanics", "Electromechanics"):
            kinds.append("NoPenalty")
        m.penalty(kinds)
        p = m.sec.pop("Penalty Function")
        return p

    def fun(self, lin):
        import inv
        m, rng, ph = self.m, self.rng, self.m.phys
        fs = {"Mechanics": ["Internal Elastic Energy", "Stress P-Norm", "Density Penalty", "Effective Energy"],
              "Thermal": ["Internal Thermal Energy", "Flux P-Norm"], "Thermomechanics": ["Internal Thermoelastic Energy", "Volume"],
              "Electromechanics": ["Internal Electroelastic Energy", "Stress P-Norm"]}[ph]
        f = "Volume" if lin else rng.choice(fs)
        if f == "Effective Energy":
            if rng.random() < .5:
                f = fs[0]
            else:
                m.p.setdefault("Cell Problem Forcing", L({"Column Index": I(rng.randint(0, {1: 1, 2: 3, 3: 6}[m.d] - 1))}))
        q = {"Type": S("Scalar Function"), "Scalar Function Type": S(f), "Penalty Function": self.pen(f, lin)}
        if f == "Stress P-Norm":
            q.update(inv.norm(rng))
        elif f == "Flux P-Norm":
            q["Exponent"] = D(rng.choice([1.0, 2.0, 3.0, 4.0, 2.5, 1.5, 6.0]))
        elif f == "Density Penalty":
            if rng.random() < .6:
                q["Penalty Amplitude"] = D(num(rng))
            if rng.random() < .3:
                q.pop("Penalty Function")
        elif f == "Effective Energy":
            q["Assumed Strain"] = dict(t="a", a=[num(rng) for _ in range({1: 1, 2: 3, 3: 6}[m.d])])
            if rng.random() < .5:
                q["Plottable"] = {"t": "as", "as": some(rng, ["effective stress", "cell volume", "stress"], 0)}
        n = self.name()
        self.q[n] = L(q)
        return n

    def solution(self):
        m, rng = self.m, self.rng
        q = {"Type": S("Solution"), "Domain": S(nodeset(m))}
        if m.nd > 1 or rng.random() < .5:
            q["Normal"] = dict(t="a", a=[num(rng) if rng.random() < .8 else 0.0 for _ in range(m.nd if rng.random() < .7 else rng.randint(1, m.nd + 2))])
        if rng.random() < .5:
            q["Magnitude"] = dict(t="b", b=rng.random() < .6)
        n = self.name()
        self.q[n] = L(q)
        return n

    def mass(self):
        m, rng = self.m, self.rng
        names = ["Mass", "CGx", "CGy", "CGz", "Ixx", "Iyy", "Izz", "Ixy", "Ixz", "Iyz"]
        n = self.name()
        for mat in m.p["Material Models"]["l"].values():
            if rng.random() < .6:
                mat["l"]["Density"] = D(rng.choice([.5, 2.0, 7.8]))
        if rng.random() < .6 or self.wit:
            ps = some(rng, names)[:rng.choice([1, 2, 3, 9])]
            gold = [rng.choice([0.0, .05, .1, num(rng), num(rng)]) for _ in ps]
        else:
            ps = some(rng, names, 10)
            # a rational rotation and distinct principal values
            Q = [[2 / 3, -1 / 3, 2 / 3], [2 / 3, 2 / 3, -1 / 3], [-1 / 3, 2 / 3, 2 / 3]] if rng.random() < .6 else [[.6, -.8, 0.0], [.8, .6, 0.0], [0.0, 0.0, 1.0]]
            o = rng.sample(range(3), 3)
            Q = [Q[i] for i in o]
            l = rng.sample([.05, .5, 1.0, 2.5, 4.0], 3)
            mass, c = rng.choice([1.0, 2.0, .05]), [rng.choice([0.0, .5, -1.25, .125, rng.uniform(-3, 3)]) for _ in range(3)]
            cc = sum(x * x for x in c)
            G = [[sum(Q[i][k] * l[k] * Q[j][k] for k in range(3)) + mass * ((cc if i == j else 0) - c[i] * c[j]) for j in range(3)] for i in range(3)]
            v = dict(Mass=mass, CGx=c[0], CGy=c[1], CGz=c[2], Ixx=G[0][0], Iyy=G[1][1], Izz=G[2][2], Ixy=G[0][1], Ixz=G[0][2], Iyz=G[1][2])
            gold = [v[p] for p in ps]
            self.wit = dict(Q=Q, l=l)
        self.q[n] = L({"Type": S("Mass Properties"), "Properties": {"t": "as", "as": ps}, "Weights": dict(t="a", a=[num(rng) for _ in ps]),
                       "Gold Values": dict(t="a", a=gold)})
        return n

    def leaf(self, lin):
        rng = self.rng
        k = rng.random()
        if self.m.d == 3 and k < (.6 if lin else .15):
            return self.mass()
        if not lin and k < .35:
            return self.solution()
        return self.fun(lin)

    def composite(self, lin, depth=2):
        rng = self.rng
        part = lambda: self.leaf(lin) if depth == 1 or rng.random() < .7 else self.composite(lin, depth - 1)
        n, k = self.name(), rng.random()
        if k < .3:
            q = {"Type": S("Division"), "Numerator": S(part()), "Denominator": S(part())}
        else:
            fs = [part() for _ in range(rng.choice([1, 2, 2, 3]))]
            if rng.random() < .2:
                fs.append(fs[0])
            q = {"Functions": {"t": "as", "as": fs}, "Weights": dict(t="a", a=[num(rng) if rng.random() < .9 else 0.0 for _ in fs])}
            if k < .6:
                q["Type"] = S("Weighted Sum")
            else:
                q.update({"Type": S("Least Squares"), "Gold Values": dict(t="a", a=[rng.choice([0.0, .05, .1, num(rng), num(rng)]) for _ in fs])})
        self.q[n] = L(q)
        return n

    def spoil(self, n):
        rng, q = self.rng, self.q[n]["l"]
        k = rng.randint(0, 5)
        t = q["Type"]["s"]
        if k == 0:
            if rng.random() < .5:
                q.pop("Type")
            else:
                q["Type"] = S(rng.choice(["Sum", "weighted sum", "Volume"]))
        elif t == "Scalar Function":
            if k == 1:
                q["Scalar Function Type"] = S(rng.choice(["Energy", "", "Volume Fraction", "Internal Energy"]))
            elif k == 2:
                q.pop("Scalar Function Type")
            elif k == 3:
                q["Penalty Function"] = L(rng.choice([{}, {"Type": S("None")}, {"Type": S("NoPenalty")}, {"Type": S("simp")}]))
            elif k == 4:
                q.pop("Exponent", None)
            else:
                q.pop("Assumed Strain", None)
        elif t == "Solution":
            if k < 3:
                q["Domain"] = S("nowhere")
            elif k == 3:
                q.pop("Domain")
            else:
                q.pop("Normal", None)
        elif t == "Division":
            w = rng.choice(["Numerator", "Denominator"])
            if k < 3:
                q.pop(w)
            else:
                q[w] = S("nothing")
        else:
            fs = "Properties" if t == "Mass Properties" else "Functions"
            if k == 1:
                q.pop(rng.choice([x for x in (fs, "Weights", "Gold Values") if x in q]))
            elif k == 2:
                q["Weights"]["a"].append(1.0)
            elif k == 3 and "Gold Values" in q:
                q["Gold Values"]["a"].pop()
            elif k == 4:
                q[fs]["as"] = q[fs]["as"][:-1] + ["nothing"]
            else:
                q[fs]["as"] = q[fs]["as"] + q[fs]["as"][:1]
                if rng.random() < .5:
                    for x in ("Weights", "Gold Values"):
                        if x in q:
                            q[x]["a"].append(1.0)


def evaluation(m, c, n, lin):
    r = m.res()
    if m.rng.random() < .06:
        r["u"] = [0.0] * len(r["u"])
    o = dict(r, op="ceval", name=n, linear=lin)
    if any(q["l"].get("Type", {}).get("s") == "Mass Properties" and len(q["l"].get("Properties", {}).get("as", [])) == 10 for q in c.q.values()):
        o.update(c.wit)
    return o


def criteria(phys, shape, lin=lambda rng: False, quick=240, dims=(1, 2, 2, 3)):
    """shape(Criteria, lin) -> name of the criterion to evaluate"""
    def gen(rng, tier):
        out = []
        for _ in range(quick if tier == "quick" else 2500):
            d = rng.choice(dims)
            m = Model(rng, rng.choice(phys), d, most={1: 3, 2: 3, 3: 2}[d])
            m.whole()
            c = Criteria(m)
            keep = m.sec.get("Penalty Function")
            l = lin(rng)
            n = shape(c, l)
            if keep is not None:
                m.sec["Penalty Function"] = keep
            if rng.random() < .4:
                m.p["Plottable"] = {"t": "as", "as": some(rng, ["strain", "stress", "edisp", "volume"], 0)}
            if rng.random() < .2:
                c.spoil(rng.choice(sorted(c.q)))
            sc = [m.o, dict(op="crit", M="m", name=n, linear=l)]
            for _ in range(rng.choice([1, 1, 2])):
                sc.append(evaluation(m, c, n, l))
            out.append(sc)
        return out
    return gen


functions = lambda *phys: criteria(phys, lambda c, l: c.fun(l))
composites = criteria(("Mechanics", "Thermal"), lambda c, l: c.composite(l) if c.rng.random() < .7 else c.solution() if not l and c.rng.random() < .6 else c.mass() if c.m.d == 3 else c.fun(l),
                      lin=lambda rng: rng.random() < .5, dims=(1, 2, 3, 3))


# ---- whole problems
B = lambda b: dict(t="b", b=b)


def steady(m):
    """A material for which problems are well posed."""
    rng, d = m.rng, m.d
    pos = lambda: round(rng.uniform(.5, 4), 3)
    small = lambda: round(rng.uniform(-.3, .3), 3)
    if m.phys == "Mechanics":
        p = {"Youngs Modulus": D(pos()), "Poissons Ratio": D(rng.choice([0.0, .25, .3, -.2]))}
        if rng.random() < .3:
            return {"Isotropic Linear Elastic": L(dict(p, **{"e11": D(small())}))}
        return {"Isotropic Linear Elastic": L(p)}
    k = {"c%d%d" % (i, i): D(pos()) for i in range(1, d + 1)}
    if d > 1 and rng.random() < .4:
        k["c12"] = D(small())
    if m.phys == "Thermal":
        if rng.random() < .5:
            return {"Thermal Conduction": L({"Thermal Conductivity": L(k)})}
        q = {"c0" + n[1:]: v for n, v in k.items()}
        q.update({"c%d%d%d" % (r, i, i): D(round(rng.uniform(-.04, .04), 3)) for r in (1, 2) for i in range(1, d + 1)})
        return {"Thermal Conduction": L({"Temperature Dependent": B(True), "Thermal Conductivity": L(q)})}
    if m.phys == "Thermomechanics":
        q = {"Elastic Stiffness": L({"Youngs Modulus": D(pos()), "Poissons Ratio": D(.25)}), "Thermal Expansivity": D(small()), "Thermal Conductivity": D(pos())}
        if rng.random() < .4:
            q["Reference Temperature"] = D(small())
        if rng.random() < .3:
            q["Temperature Scaling"] = D(2.0)
        return {"Thermoelastic": L(q)}
    p = {"Poissons Ratio": D(.25), "Youngs Modulus": D(pos()), "Alpha": D(rng.choice([1.0, 2.0]))}
    p.update({"e33": D(small()), "p33": D(pos()), "e15": D(small()), "e31": D(small()), "p11": D(pos())})
    return {"Isotropic Linear Electroelastic": L(p)}


def rank(rows):
    rows, r = [list(x) for x in rows], 0
    for c in range(len(rows[0]) if rows else 0):
        p = max(range(r, len(rows)), key=lambda i: abs(rows[i][c]), default=None)
        if p is None or abs(rows[p][c]) < 1e-9:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        for i in range(r + 1, len(rows)):
            f = rows[i][c] / rows[r][c]
            rows[i] = [a - f * b for a, b in zip(rows[i], rows[r])]
        r += 1
    return r


def clamp(m, zero=False):
    """Conditions that hold the body: all components on nodes that span a side, further ones elsewhere."""
    rng, d, n = m.rng, m.d, len(m.X)
    ns = list(range(n))
    for _ in range(50):
        rng.shuffle(ns)
        base = ns[:d if m.phys != "Thermal" else 1]
        if d == 1 or m.phys == "Thermal" or rank([[a - b for a, b in zip(m.X[i], m.X[base[0]])] for i in base[1:]]) == d - 1:
            break
    m.nsets["base"] = list(base)
    q, k, fn = {}, 0, []
    val = lambda: 0.0 if zero or rng.random() < .5 else round(rng.uniform(-1, 1), 3)
    for i in range(m.nd):
        v = val()
        b = {"Type": S("Zero Value" if v == 0 and rng.random() < .7 else "Fixed Value"), "Sides": S("base")}
        if i or rng.random() < .5:
            b["Index"] = I(i)
        if b["Type"]["s"] == "Fixed Value":
            b["Value"] = D(v)
        q["bc %d" % i] = L(b)
    rest = [i for i in ns if i not in base]
    if rest and rng.random() < .5:
        m.nsets["more"] = some(rng, rest)[:2]
        b = {"Type": S("Fixed Value"), "Sides": S("more"), "Index": I(rng.randint(0, m.nd - 1))}
        if not zero and rng.random() < .3:
            s, c = rng.choice(TFUN)
            m.exprs[s] = [float(x) for x in c]
            b.update({"Type": S("Time Dependent"), "Function": S(s)})
        else:
            b["Value"] = D(val())
        q["more"] = L(b)
    m.p["Essential Boundary Conditions"] = L(q)


def solvable(m, simple=False):
    """The parts of a well posed problem, criteria apart."""
    rng = m.rng
    m.penalty()
    pf = m.sec["Penalty Function"]["l"]
    pf["Minimum Value"] = D(rng.choice([.25, .125, .01]))
    pf.pop("Regularization Length", None)
    m.outputs()
    m.domains()
    cells = list(range(len(m.E)))
    bs = [m.p["Spatial Model"]["l"]["Domains"]["l"][k]["l"]["Element Block"]["s"] for k in sorted(m.p["Spatial Model"]["l"]["Domains"]["l"])]
    if len(bs) == 2:
        m.blocks[bs[1]] = [c for c in cells if c not in m.blocks[bs[0]]] if rng.random() < .8 else some(rng, cells) + [c for c in cells if c not in m.blocks[bs[0]]]
        m.blocks[bs[1]] = sorted(set(m.blocks[bs[1]]))
    m.p["Material Models"] = L({k: L(steady(m)) for k in m.p["Material Models"]["l"]})
    m.loads()
    if m.phys != "Mechanics" or simple:
        m.p.pop("Cell Problem Forcing", None)
    if simple:
        m.p.pop("Body Loads", None)
    if rng.random() < .5:
        m.p["Linear Solver"] = L({"Solver Stack": S("Epetra"), "Iterations": I(300), "Tolerance": D(1e-14)})


def moves_with_mesh(m):
    """Loads whose dependence on the positions is a known finding."""
    return "Body Loads" in m.p or any(b["l"].get("Type", {}).get("s") == "Uniform Pressure" for k in m.p if "Natural" in k for b in m.p[k]["l"].values() if b["t"] == "l")


def tame(x):
    """The same input with numbers of ordinary size."""
    if isinstance(x, dict):
        return {k: tame(v) for k, v in x.items()}
    if isinstance(x, list):
        return [tame(v) for v in x]
    if isinstance(x, float) and x:
        while abs(x) > 20:
            x = round(x / 10, 4)
        return x if abs(x) > 1e-9 * .99 else .5
    return x


def problems(*phys):
    def gen(rng, tier):
        out = []
        for _ in range(150 if tier == "quick" else 2000):
            d = rng.choice([1, 2, 2, 3])
            m = Model(rng, rng.choice(phys), d, most={1: 4, 2: 3, 3: 2}[d])
            self_adjoint = m.phys in ("Mechanics", "Thermal") and rng.random() < .15
            solvable(m, self_adjoint)
            m.p["Linear Solver"] = L({"Iterations": I(300), "Tolerance": D(1e-14)})
            if rng.random() < .3:
                m.p["Linear Solver"]["l"]["Solver Stack"] = S("Epetra")
            clamp(m, self_adjoint)
            non = m.phys in ("Thermal",) and any("Temperature Dependent" in x["l"].get("Thermal Conduction", L({}))["l"] for x in m.p["Material Models"]["l"].values())
            if rng.random() < (.8 if non else .25):
                q = {"Maximum Iterations": I(rng.choice([1, 2, 3, 4]))}
                if rng.random() < .4:
                    q["Increment Tolerance"] = D(rng.choice([1e-3, .1, 10.0, 1e-12]))
                if rng.random() < .4:
                    q["Residual Tolerance"] = D(rng.choice([1e-3, .1, 10.0, 1e-12, 1e6]))
                m.p["Newton Iteration"] = L(q)
            c = Criteria(m)
            keep = m.sec["Penalty Function"]
            names, lins = [], {}
            for i in range(rng.choice([1, 1, 2])):
                l = rng.random() < .15
                n = c.composite(l, 1) if rng.random() < .2 else c.leaf(l) if m.d < 3 else c.fun(l) if l or rng.random() < .7 else c.solution()
                names.append(n)
            if self_adjoint:
                f = {"Mechanics": "Internal Elastic Energy", "Thermal": "Internal Thermal Energy"}[m.phys]
                c.q.clear()
                names = ["compliance"]
                c.q["compliance"] = L({"Type": S("Scalar Function"), "Scalar Function Type": S(f), "Penalty Function": keep})
                m.p["Self-Adjoint"] = B(True)
            elif rng.random() < .2:
                m.p["Self-Adjoint"] = B(False)
            m.sec["Penalty Function"] = keep
            for n in c.q:                  # a criterion of the design alone is made of such criteria
                if any(n == k or n in parts(c.q, k) for k in names if only_design(c.q, k)) or (only_design(c.q, n) and rng.random() < .1):
                    c.q[n]["l"]["Linear"] = B(True)
                elif rng.random() < .1:
                    c.q[n]["l"]["Linear"] = B(False)
            if any(q["l"].get("Type", {}).get("s") == "Mass Properties" and len(q["l"].get("Properties", {}).get("as", [])) == 10 for q in c.q.values()):
                continue
            if m.p.get("Cell Problem Forcing") and not any(q["l"].get("Scalar Function Type", {}).get("s") == "Effective Energy" for q in c.q.values()) and rng.random() < .7:
                m.p.pop("Cell Problem Forcing")
            for k in m.p:
                if k == "Criteria" or "Natural" in k:
                    m.p[k] = tame(m.p[k])
            c.q = m.p["Criteria"]["l"]
            k = rng.random()
            if k < .08:
                c.spoil(rng.choice(sorted(c.q)))
            elif k < .11:
                c.q["odd"] = D(1.0)
            elif k < .13:
                m.p["Linear Solver"]["l"]["Solver Stack"] = S(rng.choice(["Tpetra", "epetra", "AmgX"]))
            elif k < .16:
                spoil_supports(m, m.p["Essential Boundary Conditions"]["l"]) if rng.random() < .6 else m.p.pop("Essential Boundary Conditions")
            sc = [m.o, dict(op="problem", M="m"), dict(op="bcs", M="m")]
            if rng.random() < .2:
                sc.insert(rng.choice([2, 3, 3]), directly(m))
            fixed = moves_with_mesh(m)
            for _ in range(rng.choice([1, 1, 2])):
                z = [round(rng.uniform(.3, 1), 3) for _ in m.X] if rng.random() < .8 else [1.0 for _ in m.X]
                sc.append(dict(op="solve", M="m", z=z))
                if rng.random() < .1:
                    sc.append(dict(op="setstate", M="m", u=m.field()))
                for n in names:
                    if rng.random() < .05:
                        n = "nothing"
                    o = dict(op="pcrit", M="m", name=n, z=z, u=[], xfirst=rng.random() < .5, **m.dirs())
                    if rng.random() < .15:
                        o["u"] = m.field()
                    if rng.random() < .1:
                        o["z"] = [round(rng.uniform(.3, 1), 3) for _ in m.X]
                    if fixed:
                        o["dx"] = [[0.0] * m.d for _ in m.X]
                    sc.append(o)
            out.append(sc)
        return out
    return gen


def parts(q, n):
    b = q.get(n, L({}))["l"]
    r = set(b.get("Functions", {}).get("as", [])) | {b[k]["s"] for k in ("Numerator", "Denominator") if k in b}
    for k in set(r):
        r |= parts(q, k)
    return r


def only_design(q, n):
    """Every part is one that can be had without a state."""
    leaf = lambda b: b.get("Type", {}).get("s") in ("Mass Properties", "Weighted Sum", "Division", "Least Squares") or b.get("Scalar Function Type", {}).get("s") == "Volume"
    return all(leaf(q[k]["l"]) for k in {n} | parts(q, n))
