"""Scenario generators for the expression evaluator."""
FN = ["sin", "cos", "tan", "exp", "log", "sqrt", "abs"]
NAMES = ["x", "y", "X_0", "X_1", "E", "v", "nu", "sinus", "cosA", "tan_1", "exp2", "logx", "sqr1", "absorb", "power", "PIx", "pi", "e1", "_a", "abcDEF_9", "A", "Z", "a", "z", "_", "xAZ", "xaz", "x09", "x_", "AAA", "zZ9_"]


def env(rng):
    e = {}
    for n in rng.sample(NAMES, rng.randint(2, 6)):
        e[n] = rng.choice([float(rng.randint(-3, 4)), round(rng.uniform(-3, 3), 3), rng.choice([0.0, 1.0, 0.5, 1e-3, 200.0])])
    return e


def numtok(rng):
    r = rng.random()
    if r < .5:
        t = str(rng.randint(0, 6))
    elif r < .7:
        t = "%.3f" % rng.uniform(0, 5)
    elif r < .8:
        t = rng.choice(["0.5", "2.", "007", "1.25", "0.1", "10.0"])
    elif r < .95:
        t = rng.choice(["1e1", "2.5e-2", "1.5e+1", "3e-1", "1e0", "12e-1"])
    else:
        t = rng.choice(["123456789.0", "0.000001", "3.14159265358979"])
    return dict(k="num", t=t)


def op(t):
    return dict(k="op", t=t)


def sym(t):
    return dict(k=t, t=t)


def tree(rng, d, names):
    r = rng.random()
    if d == 0 or r < .12:
        r = rng.random()
        if r < .5 and names:
            return ("var", rng.choice(names))
        if r < .58:
            return ("pi",)
        return ("num", numtok(rng))
    if r < .6:
        return (rng.choice("++--**//^"), tree(rng, d - 1, names), tree(rng, d - 1, names))
    if r < .68:
        return ("^", tree(rng, d - 1, names), ("num", dict(k="num", t=str(rng.randint(0, 4)))))
    if r < .76:
        return (rng.choice(["neg", "pos", "neg"]), tree(rng, d - 1, names))
    if r < .8:
        return ("!", ("num", dict(k="num", t=str(rng.randint(0, 9)))) if rng.random() < .8 else tree(rng, d - 1, names))
    if r < .87:
        return ("bar", tree(rng, d - 1, names))
    if r < .93:
        return ("pow", tree(rng, d - 1, names), tree(rng, d - 1, names))
    return ("fn", rng.choice(FN), tree(rng, d - 1, names))


LV = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 3, "neg": 4, "pos": 4, "!": 5}


def lvl(t):
    return LV.get(t[0], 6)


def txt(rng, t, bar=False, extra=.15):
    """Token text; bar: inside a bar at this parenthesis level."""
    def sub(x, l):
        if lvl(x) < l or rng.random() < extra or (x[0] == "bar" and bar):
            return [sym("(")] + txt(rng, x, False, extra) + [sym(")")]
        return txt(rng, x, bar, extra)
    k = t[0]
    if k == "num":
        return [t[1]]
    if k == "var":
        return [dict(k="var", t=t[1])]
    if k == "pi":
        return [dict(k="pi", t="PI")]
    if k in "+-":
        return sub(t[1], 1) + [op(k)] + sub(t[2], 2)
    if k in "*/":
        a, b = sub(t[1], 2), sub(t[2], 3)
        if k == "*" and a[-1]["t"] == ")" and b[0]["t"] in ("(", "pow") and rng.random() < .6:
            return a + b
        return a + [op(k)] + b
    if k == "^":
        return sub(t[1], 4) + [op("^")] + sub(t[2], 3)
    if k in ("neg", "pos"):
        return [op("-" if k == "neg" else "+")] + sub(t[1], 5)
    if k == "!":
        return sub(t[1], 5) + [op("!")]
    if k == "bar":
        if bar:
            return [sym("(")] + txt(rng, t, False, extra) + [sym(")")]
        return [sym("|")] + txt(rng, t[1], True, extra) + [sym("|")]
    if k == "pow":
        return [dict(k="pow", t="pow"), sym("(")] + txt(rng, t[1], False, extra) + [sym(",")] + txt(rng, t[2], False, extra) + [sym(")")]
    return [dict(k="fn", t=t[1]), sym("(")] + txt(rng, t[2], False, extra) + [sym(")")]


def sep(rng, n):
    k = rng.random()
    if k < .4:
        return None
    w = ["", "", " "] if k < .8 else ["", " ", "\t", "\n", "\r", "  "]
    return [rng.choice(w) for _ in range(n + 1)]


def calc(rng, toks, e, **kw):
    o = dict(op="calc", toks=toks, env=e, **kw)
    s = sep(rng, len(toks))
    if s is not None:
        o["sep"] = s
    return o


BAD = ["1.2.3", "1e", "2e+", "1e5e2", "3e-", "#", "$", "&", "2..5", ".5", "@x", "~", "1e1.5", "=", ";", "[", "]", "{", "?", "<", "\"", "%"]


def mutate(rng, toks):
    q = list(toks)
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.random()
        i = rng.randrange(len(q)) if q else 0
        pool = [op(c) for c in "+-*/^!"] + [sym(c) for c in "()|,"] + [dict(k="num", t="2"), dict(k="var", t="x"),
                                                                     dict(k="fn", t=rng.choice(FN)), dict(k="pow", t="pow"), dict(k="pi", t="PI")]
        if k < .35 and q:
            del q[i]
        elif k < .65:
            q.insert(rng.randint(0, len(q)), rng.choice(pool))
        elif k < .8 and q:
            q[i] = rng.choice(pool)
        elif k < .9 and len(q) > 1:
            j = rng.randrange(len(q))
            q[i], q[j] = q[j], q[i]
        else:
            q.insert(rng.randint(0, len(q)), dict(k="bad", t=rng.choice(BAD)))
    return q


def evaluate(rng, tier):
    n = 900 if tier == "quick" else 12000
    out = []
    for t in range(n):
        e = env(rng)
        d = rng.choice([1, 2, 2, 3, 3, 4]) if t % 25 else 6
        q = txt(rng, tree(rng, d, sorted(e)), extra=rng.choice([0, .1, .4]))
        if len(q) < 160:
            out.append([calc(rng, q, e)])
    for _ in range(n // 30):      # an undefined variable
        e = env(rng)
        q = txt(rng, tree(rng, 2, sorted(e) + ["undefined_q"]))
        out.append([calc(rng, q, e)])
    # long chains: left associativity and precedence over many operators
    for k in (10, 40, 120):
        for ops in ("+-", "*/", "+-*/", "-"):
            q = [dict(k="num", t="1.5")]
            for i in range(k):
                q += [op(rng.choice(ops)), dict(k="num", t=str(rng.randint(1, 3)))]
            out.append([calc(rng, q, {"x": 1.0})])
    # deep nesting
    for k in (5, 20, 60):
        q = [sym("(")] * k + [dict(k="var", t="x")] + [sym(")")] * k
        out.append([calc(rng, q, {"x": 2.5})])
        q = [dict(k="fn", t="abs"), sym("(")] * k + [op("-"), dict(k="var", t="x")] + [sym(")")] * k
        out.append([calc(rng, q, {"x": 2.5})])
        q = []
        for i in range(k):
            q += [dict(k="pow", t="pow"), sym("(")]
        q += [dict(k="var", t="x")]
        for i in range(k):
            q += [sym(","), dict(k="num", t="1"), sym(")")]
        out.append([calc(rng, q, {"x": 2.5})])
    # interplay of two evaluators, re-evaluation and re-parsing of valid expressions
    for _ in range(n // 12):
        ops = []
        envs = {}
        for E in ("a", "b"):
            envs[E] = env(rng)
            ops.append(dict(op="new", E=E, env=envs[E]))
        for _ in range(rng.randint(2, 5)):
            E = rng.choice("ab")
            q = txt(rng, tree(rng, 2, sorted(envs[E])))
            ops.append(dict(op="parse", E=E, toks=q))
            for _ in range(rng.randint(1, 3)):
                ops.append(dict(op=rng.choice(["eval", "eval", "validate"]), E=rng.choice("ab")))
        out.append(ops)
    return out


def reject(rng, tier):
    n = 900 if tier == "quick" else 12000
    out = []
    for t in range(n):
        e = dict(env(rng), x=2.0)
        q = mutate(rng, txt(rng, tree(rng, rng.choice([0, 1, 2, 2, 3]), sorted(e)), extra=.2))
        if len(q) < 120:
            out.append([calc(rng, q, e)])
    for b in BAD:
        for q in ([dict(k="bad", t=b)], [dict(k="num", t="2"), op("*"), dict(k="bad", t=b)], [dict(k="bad", t=b), op("+"), dict(k="var", t="x")]):
            out.append([calc(rng, q, {"x": 1.0})])
    # over-long names and numbers
    for k in (100, 126, 127, 128, 129, 200):
        out.append([dict(op="calc", toks=[dict(k="bad" if k >= 127 else "num", t="1" + "0" * 5 + "." + "3" * (k - 7))], env={"x": 1.0})])
        nm = "q" * k
        out.append([dict(op="calc", toks=[dict(k="bad" if k >= 127 else "var", t=nm)], env={nm: 2.0})])
    # life cycle with malformed expressions in between
    for _ in range(n // 5):
        ops = [dict(op="new", E="a", env=dict(env(rng), x=2.0)), dict(op="new", E="b", env={"x": 5.0})]
        for _ in range(rng.randint(3, 9)):
            E = rng.choice("aab")
            k = rng.random()
            if k < .45:
                q = txt(rng, tree(rng, rng.choice([0, 1, 2]), ["x"]))
                if rng.random() < .5:
                    q = mutate(rng, q)
                ops.append(dict(op="parse", E=E, toks=q))
                if rng.random() < .6:
                    ops.append(dict(op="validate", E=E))
            elif k < .55:
                ops.append(dict(op=rng.choice(["null", "clear"]), E=E))
            elif k < .75:
                ops.append(dict(op="validate", E=E))
            else:
                ops.append(dict(op="eval", E=E))
        # never evaluate what has not been validated
        out.append(ops)
    return out


def custom(rng, tier):
    n = 350 if tier == "quick" else 3500
    out = []
    head = ["FITNESS    COMPLEXITY    EQUATION", "FITNESS COMPLEXITY EQUATION", "# FITNESS, COMPLEXITY, EQUATION"]
    for _ in range(n):
        e = env(rng)

        def eq():
            q = txt(rng, tree(rng, rng.choice([0, 1, 2, 2]), sorted(e)))
            if rng.random() < .08:
                q = mutate(rng, q)
            return q
        names = ["Equation", "E11", "My Equation", "c0"]
        eqs = {k: dict(toks=eq()) for k in names if rng.random() < .3}
        bingo = rng.choice(["none", "file", "file", "file", "missing"])
        lines = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            lines.append(dict(k="text", t=rng.choice(["", "some text", "1.0, 2, comment", "Generation 7", "FITNESS only", "COMPLEXITY of the EQUATION", "FITNESS of an EQUATION", "EQUATION", "FITNESS COMPLEXITY"])))
        neq = rng.randint(0, 4)
        if rng.random() < .9:
            lines.append(dict(k="header", t=rng.choice(head)))
            for _ in range(neq):
                r = rng.random()
                if r < .85:
                    lines.append(dict(k="eq", pre=rng.choice(["0, 0, ", "0.0111250103, 5, ", "1.0,1,", "1e-3, 12 ,\t"]), toks=eq()))
                elif r < .92:
                    lines.append(dict(k="text", t=""))
                else:
                    lines.append(dict(k="text", t="no delimiter here"))
        o = dict(op="custom", env=e, eqs=eqs, bingo=bingo, lines=lines, nl=rng.random() < .5, bindex=rng.choice([-1, -1, 0, 1, 2, neq, neq + 1]),
                 mode=rng.choice(["default", "name", "index", "both"]), name=rng.choice(names), index=rng.choice([-1, 0, 1, 2, neq, neq + 1]))
        out.append([o])
    return out
