------------------------------- MODULE Design -------------------------------
(* Material penalization with continuation, and projection of densities.      *)
(* A penalty model is [kind, pen, min, up, add, reg]; a weighting owns a copy *)
(* of the model it was made from; a projection is [kind, beta, eta].          *)
EXTENDS Dual, TLC

Pi == "3.14159265358979323846264338327950288"
Upd(f, k, x) == (k :> x) @@ f
Has(p, k, t) == k \in DOMAIN p /\ p[k].t = t
Def(p, k, d) == IF Has(p, k, "d") THEN p[k].v ELSE d
Model(kind, pen, min, up, add, reg) == [kind |-> kind, pen |-> pen, min |-> min, up |-> up, add |-> add, reg |-> reg]

(* ---- transitions of a penalty model ---- *)
FromList(kind, p) ==
  CASE kind = "simp" -> Model(kind, Def(p, "Exponent", "3"), Def(p, "Minimum Value", "1e-9"), Def(p, "Penalty Exponent Upper Bound", "3"), Def(p, "Additive Continuation", "0.1"), "1")
    [] kind = "ramp" -> Model(kind, Def(p, "Exponent", "3"), Def(p, "Minimum Value", "0"), Def(p, "Penalty Exponent Upper Bound", "3"), Def(p, "Additive Continuation", "0.1"), "1")
    [] kind = "heav" -> Model(kind, Def(p, "Exponent", "1"), Def(p, "Minimum Value", "0"), Def(p, "Penalty Exponent Upper Bound", "1"), Def(p, "Additive Continuation", "0.1"), Def(p, "Regularization Length", "1"))
    [] OTHER -> Model(kind, "0", "0", "0", "0", "1")
FromArgs(kind, a) == IF kind = "simp" THEN Model(kind, a[1], a[2], "3", "0.1", "1") ELSE Model(kind, a[1], a[3], "3", "0.1", a[2])
Default(kind) == CASE kind = "ramp" -> Model(kind, "3", "0", "3", "0.1", "1") [] kind = "heav" -> Model(kind, "1", "0", "3", "0.1", "1") [] OTHER -> Model(kind, "0", "0", "0", "0", "1")
Continue(m) == IF m.kind = "none" THEN m ELSE [m EXCEPT !.pen = RMin(RVal(RAdd(m.pen, m.add)), m.up)]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
SetParams(m, q) ==
  [m EXCEPT !.pen = Get(q, "Exponent", IF m.kind = "heav" THEN "1" ELSE "3"), !.min = Get(q, "Minimum Value", "1e-9"),
            !.add = Get(q, "Additive Continuation", "0.1"), !.reg = IF m.kind = "heav" THEN Get(q, "Regularization Length", "1") ELSE m.reg]

(* ---- values ---- *)
Power(x, p) == IF RIsZero(RVal(x)) THEN (IF RIsZero(p) THEN "1" ELSE "0") ELSE IF RIsInt(p) /\ RLeq(p, "64") /\ RLeq("0", p) THEN RIPow(x, RTrunc(p)) ELSE RPow(x, p)
Blend(m, y) == RAdd(m.min, RMul(RSub("1", m.min), y))
Pen(m, x) ==
  CASE m.kind = "simp" -> Blend(m, Power(x, m.pen))
    [] m.kind = "ramp" -> Blend(m, RDiv(x, RAdd("1", RMul(m.pen, RSub("1", x)))))
    [] m.kind = "heav" -> IF RLeq(RVal(x), RNeg(m.reg)) THEN m.min ELSE IF RLeq(m.reg, RVal(x)) THEN "1"
                          ELSE Blend(m, Power(RDiv(RAdd("1", RSin(RDiv(RMul(Pi, x), RMul("2", m.reg)))), "2"), m.pen))
    [] OTHER -> "1"
\* where the model has no derivative (the ends of a power or of the transition)
Kink(m, x) == CASE m.kind = "simp" -> RIsZero(RVal(x)) [] m.kind = "heav" -> RNear(RAbs(RVal(x)), m.reg, "0", "1/1000000") [] OTHER -> FALSE
Mean(v) == RDiv(RSum(v), Len(v))
\* tanh projection; regularised Heaviside 1 - H(1 - x), H(a) = 1 - exp(-beta a) + a exp(-beta)
Proj(j, x) ==
  IF j.kind = "tanh" THEN RDiv(RAdd(RTanh(RMul(j.beta, j.eta)), RTanh(RMul(j.beta, RSub(x, j.eta)))),
                               RAdd(RTanh(RMul(j.beta, j.eta)), RTanh(RMul(j.beta, RSub("1", j.eta)))))
  ELSE LET a == RSub("1", x) IN RSub(RExp(RNeg(RMul(j.beta, a))), RMul(a, RExp(RNeg(j.beta))))
\* what the code is known to do instead: H(1 - x) (known finding F20)
ProjKnown(j, x) == IF j.kind = "tanh" THEN Proj(j, x) ELSE RSub("1", Proj(j, x))
Mass(phi, z) == RMul(RSum(phi), RDot(phi, z))

(* ------------------------------ judging ------------------------------------ *)
Val(o, p, m, x, e) == IF Kink(m, x) THEN DPlain(o, p, e) ELSE DClose(o, p, e)
Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      chk(c, w) == IF ~e.exc /\ c THEN ok(s) ELSE bad(w)
      set(k, x) == IF e.exc THEN bad("the call was rejected") ELSE ok(Upd(s, k, x))
      proj(Exp(_, _), n) == Len(e.out.r) = n /\ \A i \in 1..n : DClose(e.out.r[i], e.out.p[i], Exp(s[e.J], i))
      judgep(n, X(_)) == IF ~e.exc /\ proj(LAMBDA j, i : Proj(j, X(i)), n) THEN ok(s)
                         ELSE IF ~e.exc /\ s[e.J].kind = "heav" /\ proj(LAMBDA j, i : ProjKnown(j, X(i)), n) THEN [v |-> "known", why |-> "F20", st |-> s]
                         ELSE bad("wrong projected density")
  IN
  CASE e.op = "pnew" -> set(e.P, CASE e.from = "list" -> FromList(e.kind, e.p) [] e.from = "args" -> FromArgs(e.kind, e.a) [] OTHER -> Default(e.kind))
  [] e.op = "pupdate" -> set(e.P, Continue(s[e.P]))
  [] e.op = "pset" -> set(e.P, CASE e.what = "pen" -> [s[e.P] EXCEPT !.pen = e.v] [] e.what = "min" -> [s[e.P] EXCEPT !.min = e.v] [] OTHER -> [s[e.P] EXCEPT !.add = e.v])
  [] e.op = "pparams" -> set(e.P, SetParams(s[e.P], e.m))
  [] e.op = "peval" -> chk(Len(e.out.r) = Len(e.x) /\ \A i \in 1..Len(e.x) : LET x == D1(e.x[i]) IN Val(e.out.r[i], e.out.p[i], s[e.P], x, Pen(s[e.P], x)),
                           "wrong penalized value")
  [] e.op = "papply" ->
       chk(Len(e.out.r) = Len(e.r0) /\ \A c \in 1..Len(e.r0) :
           LET m == s[e.P]  x == D1(e.rho[c])  y == Pen(m, x) IN
           IF e.what = "2" THEN IF c \notin Cells(e) THEN DVSame(e.out.r[c], e.out.p[c], e.r0[c])
                                ELSE \A k \in 1..Len(e.r0[c]) : Val(e.out.r[c][k], e.out.p[c][k], m, x, RMul(D1(e.r0[c][k]), y))
           ELSE IF c \notin Cells(e) THEN DMSame(e.out.r[c], e.out.p[c], e.r0[c])
                ELSE \A k \in 1..Len(e.r0[c]), q \in 1..Len(e.r0[c][1]) : Val(e.out.r[c][k][q], e.out.p[c][k][q], m, x, RMul(D1(e.r0[c][k][q]), y)),
           "wrong penalized workset")
  [] e.op = "wnew" -> set(e.W, [model |-> s[e.P], dim |-> e.dim, terms |-> e.terms])
  [] e.op = "wupdate" -> set(e.W, [s[e.W] EXCEPT !.model = Continue(@)])
  [] e.op = "wapply" ->
       LET w == s[e.W]  m == w.model
           x(c) == Mean([n \in 1..(w.dim + 1) |-> D1(e.ctl[c][n])])
           ent(o, p, c, a) == Val(o, p, m, x(c), RMul(Pen(m, x(c)), a))
       IN chk(Len(e.out.r) = Len(e.r0) /\ \A c \in 1..Len(e.r0) :
              CASE e.what \in {"inout1", "out1"} ->
                     IF c \notin Cells(e) THEN DSame(e.out.r[c], e.out.p[c], e.r0[c])
                     ELSE ent(e.out.r[c], e.out.p[c], c, D1(IF e.what = "out1" THEN e.a[c] ELSE e.r0[c]))
                [] OTHER -> \A k \in 1..Len(e.r0[c]) :
                     IF c \notin Cells(e) \/ k > w.terms THEN DSame(e.out.r[c][k], e.out.p[c][k], e.r0[c][k])
                     ELSE ent(e.out.r[c][k], e.out.p[c][k], c, D1(IF e.what = "out" THEN e.a[c][k] ELSE e.r0[c][k])), "wrong weighted workset")
  [] e.op = "jnew" -> set(e.J, [kind |-> e.kind, beta |-> CASE e.from = "list" -> Def(e.p, "Beta", "10") [] e.from = "args" -> e.a[1] [] OTHER -> "10",
                                eta |-> CASE e.kind # "tanh" -> "0" [] e.from = "list" -> Def(e.p, "Eta", "1/2") [] e.from = "args" -> e.a[2] [] OTHER -> "1/2"])
  [] e.op = "jset" -> set(e.J, CASE e.what = "beta" -> [s[e.J] EXCEPT !.beta = e.beta] [] e.what = "eta" -> [s[e.J] EXCEPT !.eta = e.eta]
                                 [] OTHER -> [s[e.J] EXCEPT !.beta = e.beta, !.eta = e.eta])
  [] e.op = "jeval" -> judgep(Len(e.x), LAMBDA i : D1(e.x[i]))
  [] e.op = "japply" -> judgep(Len(e.ctl), LAMBDA i : Mean(DV(e.ctl[i])))
  [] e.op = "cell" ->
       chk(/\ \A c \in 1..Len(e.ctl) : /\ DClose(e.out.r[1][c], e.out.p[1][c], Mass(e.phi, DV(e.ctl[c])))
                                       /\ DClose(e.out.r[2][c], e.out.p[2][c], Mean(DV(e.ctl[c])))
           /\ Len(e.out.r[3]) = Len(e.r0)
           /\ \A c \in 1..Len(e.r0) : \A k \in 1..Len(e.r0[c]) :
                IF c \in Cells(e) /\ k <= e.dim + 1 THEN DClose(e.out.r[3][c][k], e.out.p[3][c][k], RMul(D1(e.r0[c][k]), D1(e.pen[c])))
                ELSE DSame(e.out.r[3][c][k], e.out.p[3][c][k], e.r0[c][k]), "wrong cell mass, density or penalized value")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
