"""Scenario generator for reductions over machines."""


def val(rng):
    r = rng.random()
    if r < .3:
        return float(rng.randint(-9, 9))
    return rng.choice([-1, 1]) * 10 ** rng.uniform(-12, 12) if r < .6 else rng.uniform(-5, 5)


def comm(rng, tier):
    out = []
    for _ in range(120 if tier == "quick" else 2500):
        ops, ms = [dict(op="who", M="world")], ["world"]
        for _ in range(rng.randint(3, 10)):
            r = rng.random()
            if r < .3 or len(ms) == 1:
                m = rng.choice("abc")
                ops.append(dict(op="split", M=m, color=[rng.choice([-1, 0, 0, 1, 2]) for _ in range(4)], key=[rng.randint(-3, 3) for _ in range(4)]))
                ms = sorted(set(ms) | {m})
                if rng.random() < .6:
                    ops.append(dict(op="who", M=m))
                continue
            m = rng.choice(ms)
            if r < .7:
                sgn = rng.choice([None, None, -1, 1])
                v = [val(rng) if sgn is None else sgn * abs(val(rng)) for _ in range(4)]
                ops.append(dict(op="reduce", M=m, kind=rng.choice(["max", "min", "sum"]), v=v))
            elif r < .9:
                n = rng.choice([0, 1, 2, 3, 7, 20])
                ops.append(dict(op="all", M=m, v=[[val(rng) for _ in range(n)] for _ in range(4)]))
            else:
                ops.append(dict(op="epetra", M=m, v=[val(rng) for _ in range(4)]))
        out.append(ops)
    return out
