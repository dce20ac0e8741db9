-------------------------------- MODULE Trans -------------------------------
(* Finite element models that change in time: heat that is stored              *)
(* (Parabolic, trapezoid rule) and mass that moves (Hyperbolic, Newmark), the  *)
(* states they pass through step by step, and the derivatives of criteria      *)
(* through all of these states.                                                *)
EXTENDS Prob
Tm == INSTANCE Evolve

\* the model while it changes: rates of the state, and the time
InMotion(m, v, a, t) == [m EXCEPT !.vel = v, !.acc = a, !.time = IF m.kind = "Hyperbolic" THEN t ELSE "0"]

(* ---- the residual ---- *)
JudgeTres(m, e) ==
  LET U == AlongOf(e.u, e.du, 1, 5)  z == AlongOf(e.z, e.dz, 2, 5)
      X == Now([n \in 1..NN(m) |-> AlongOf(m.X[n], e.dx[n], 3, 5)])
      mm == InMotion(m, AlongOf(e.v, e.dv, 4, 5), AlongOf(e.a, e.da, 5, 5), e.t)
      r == Residual(mm, U, z, X, X, X)
      w == Residual(mm, U, z, X, m.X, m.X)            \* known finding: loads at the positions of the mesh
      m0 == InMotion(m, e.v, e.a, e.t)
  IN IF ~VClose(e.out.r, Vals(r)) THEN "the residual is wrong"
     ELSE IF ~VClose(e.out.u, Ders(r, 1)) THEN "the derivative of the residual in the state is wrong"
     ELSE IF ~VClose(e.out.v, Ders(r, 4)) THEN "the derivative of the residual in the rate of the state is wrong"
     ELSE IF ~VClose(e.out.a, Ders(r, 5)) THEN "the derivative of the residual in the acceleration is wrong"
     ELSE IF Smooth(m, e.z) /\ ~VClose(e.out.z, Ders(r, 2)) THEN "the derivative of the residual in the design is wrong"
     ELSE IF DOMAIN e.out.map # Asked(m) THEN "the output is not what was asked for"
     ELSE IF \E n \in Asked(m) : ~FieldIs(m0, e.out.map[n], e.u, e.z, n) THEN "a field was output with wrong values"
     ELSE IF ~e.out.same THEN "the evaluation changed its arguments"
     ELSE IF VClose(e.out.x, Ders(r, 3)) THEN "ok" ELSE IF VClose(e.out.x, Ders(w, 3)) THEN "known" ELSE "the derivative of the residual in the positions is wrong"

(* ---- from the input to a problem ---- *)
Clock(m) == Sub(m.p, "Time Integration")
StepsOf(m) == IF Has(Clock(m), "Number Time Steps", "i") THEN Clock(m)["Number Time Steps"].i ELSE 1
StepOf(m) == IF Has(Clock(m), "Time Step", "d") THEN Clock(m)["Time Step"].v ELSE "1"
Rule(m) == IF m.kind = "Hyperbolic" THEN [kind |-> "newmark", alpha |-> "0", beta |-> Clock(m)["Newmark Beta"].v, gamma |-> Clock(m)["Newmark Gamma"].v]
           ELSE [kind |-> "trapezoid", alpha |-> IF Has(Clock(m), "Trapezoid Alpha", "d") THEN Clock(m)["Trapezoid Alpha"].v ELSE "1/2", beta |-> "0", gamma |-> "0"]
ClockOk(m) == m.kind = "Parabolic" \/ /\ Has(Clock(m), "Number Time Steps", "i") /\ Has(Clock(m), "Time Step", "d")
                                      /\ Has(Clock(m), "Newmark Beta", "d") /\ Has(Clock(m), "Newmark Gamma", "d")
TFunctions(m) == CASE m.kind = "Hyperbolic" -> {"Internal Elastic Energy", "Stress P-Norm"}
  [] m.phys = "Thermal" -> {"Internal Thermal Energy", "Temperature Average"} [] OTHER -> {"Internal Thermoelastic Energy"}
TMade(m, n) == LET q == Entry(m, n) IN
  /\ KindOf(m, n) = "Scalar Function" /\ Fun(m, n) \in TFunctions(m) /\ HasPenType(q) /\ PenKind(q) \in ThreeKinds
  /\ Fun(m, n) = "Stress P-Norm" => V!Complete(q)
DesignOnly(m, n) == m.kind = "Parabolic" /\ IsLinear(m, n)
TCriteriaOk(m) == \A n \in CritNames(m) : Has(Sub(m.p, "Criteria"), n, "l") /\ (IF DesignOnly(m, n) THEN Made(m, n, TRUE) # "bad" ELSE TMade(m, n))
\* values of the state at the start: fields of position, by the name of the variable
Fields(m) == Sub(m.p, "Computed Fields")
Start(m) == Sub(m.p, "Initial State")
Three(w) == <<w \o " X", w \o " Y", w \o " Z">>
StateNames(m) == IF m.phys = "Thermal" THEN <<"Temperature">> ELSE SubSeq(Three("Displacement"), 1, m.d) \o (IF m.phys = "Mechanics" THEN <<>> ELSE <<"Temperature">>)
RateNames(m) == IF m.kind = "Hyperbolic" THEN SubSeq(Three("Velocity"), 1, m.d) ELSE <<>>
Among(x, s) == \E i \in 1..Len(s) : s[i] = x
StartOk(m) ==
  /\ \A n \in DOMAIN Fields(m) : Has(Fields(m), n, "l") /\ Has(Fields(m)[n].l, "Function", "s")
  /\ Has(m.p, "Initial State", "l") => /\ Has(m.p, "Computed Fields", "l")
       /\ \A n \in DOMAIN Start(m) : Has(Start(m), n, "l") => LET q == Start(m)[n].l IN
            Has(q, "Computed Field", "s") /\ q["Computed Field"].s \in DOMAIN Fields(m) /\ (Among(n, StateNames(m)) \/ Among(n, RateNames(m)))
Given0(m, names) == Now([g \in 1..Dofs(m) |-> LET nod == ((g - 1) \div m.nd) + 1  i == g - ((nod - 1) * m.nd) IN
  IF i > Len(names) \/ ~Has(Start(m), names[i], "l") THEN "0"
  ELSE Poly(m.exprs[Fields(m)[Start(m)[names[i]].l["Computed Field"].s].l["Function"].s], m.X[nod])])
SupportsWhole(m) == \A n \in DOMAIN Supports(m) : SupportOk(Supports(m)[n], m.nd)
SupportSets(m) == \A n \in DOMAIN Supports(m) : Supports(m)[n].l["Sides"].s \in DOMAIN m.nsets
TProblemOk(m) == /\ ClockOk(m) /\ TCriteriaOk(m) /\ StartOk(m) /\ StackOk(m) /\ SupportsWhole(m)
                 /\ m.kind = "Parabolic" => SupportSets(m)
Rest(m) == VZero(Dofs(m))
TProblemOf(m) ==
  LET rest == [k \in 1..StepsOf(m) |-> Rest(m)] IN
  [lin |-> {n \in CritNames(m) : DesignOnly(m, n) /\ Made(m, n, TRUE) = "made"}, non |-> {n \in CritNames(m) : ~DesignOnly(m, n)}, ran |-> FALSE,
   u |-> IF m.kind = "Hyperbolic" THEN rest ELSE [k \in 1..StepsOf(m) |-> IF k = 1 THEN Given0(m, StateNames(m)) ELSE Rest(m)], v |-> rest, a |-> rest]

(* ---- one step in time ---- *)
\* the rates with which the rule moves from (u, v, a) to w
Rates(m, w, u, v, a) == Now([g \in 1..Dofs(m) |-> Tm!NextV(Rule(m), w[g], u[g], v[g], a[g], StepOf(m))])
Accels(m, w, u, v, a) == Now([g \in 1..Dofs(m) |-> Tm!NextA(Rule(m), w[g], u[g], v[g], a[g], StepOf(m))])
Conditions(m, t) == Prescribed(m, IF m.kind = "Hyperbolic" THEN t ELSE "0", <<>>)
TimeAt(m, k) == RMul(k - 1, StepOf(m))
\* the state after a step from p = [u, v, a], or <<>> where that cannot be told; Newton's method, w the iterate after k of its steps
RECURSIVE Advance(_, _, _, _, _, _, _)
Advance(m, z, b, p, t, w, k) ==
  LET most == IF m.kind = "Hyperbolic" THEN 1 ELSE Newton(m, "Maximum Iterations", "i", 1)
      rt == Newton(m, "Residual Tolerance", "d", "0")  it == Newton(m, "Increment Tolerance", "d", "0")
      near(x, y) == RNear(x, y, y, "1/1000000")
      n == Dofs(m)
  IN IF k >= most THEN w
     ELSE LET v == Rates(m, w, p.u, p.v, p.a)  a == Accels(m, w, p.u, p.v, p.a)
              r == Residual(InMotion(m, v, a, t), w, z, m.X, m.X, m.X)  rn == Norm(Vals(r)) IN
       IF k > 0 /\ ~RIsZero(rt) /\ near(rn, rt) THEN <<>>
       ELSE IF k > 0 /\ RLt(rn, rt) THEN w
       ELSE LET U == Now([g \in 1..n |-> RVar(w[g], g, n)])  VV == Rates(m, U, p.u, p.v, p.a)
                \* the first linearisation is about a state at rest
                W == IF k = 0 /\ m.kind = "Parabolic" THEN VSub(VV, v) ELSE VV
                A == System(m, b, Residual(InMotion(m, W, Accels(m, U, p.u, p.v, p.a), t), U, z, m.X, m.X, m.X))  B == RInverse(A)
                f == Now([g \in 1..n |-> IF Held(b, g) THEN (IF k = 0 THEN HeldAt(b, g) ELSE "0") ELSE RNeg(RVal(r[g]))])
                d == MVec(B, f)  x == VAdd(w, d)  dn == Norm(Vals(d))
            IN IF ~Posed(A, B) THEN <<>>
               ELSE IF most > 1 /\ ~RIsZero(it) /\ near(dn, it) THEN <<>>
               ELSE IF most > 1 /\ RLt(dn, it) THEN x ELSE Advance(m, z, b, p, t, x, k + 1)
\* x is y but for rounding of numbers of the size that y is made of
Tight2(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : RNear(x[i], RVal(y[i]), RMax(RMag(y[i]), RMaxAbs(Vals(y))), "1/1000000000")
AccOf(m, o, k) == IF m.kind = "Hyperbolic" THEN o.a[k] ELSE Rest(m)
StepOk(m, z, o, k) ==
  LET p == [u |-> o.u[k - 1], v |-> o.v[k - 1], a |-> AccOf(m, o, k - 1)]
      t == TimeAt(m, k)  b == Conditions(m, t)
      w == IF Consistent(b) THEN Advance(m, z, b, p, t, Rest(m), 0) ELSE <<>>
  IN IF w # <<>> /\ ~NearTo(o.u[k], w) THEN "the state after a step is not the solution"
     ELSE IF ~Tight2(o.v[k], Rates(m, o.u[k], p.u, p.v, p.a)) THEN "the rate of the state does not follow the rule of time integration"
     ELSE IF m.kind = "Hyperbolic" /\ ~Tight2(o.a[k], Accels(m, o.u[k], p.u, p.v, p.a)) THEN "the acceleration does not follow the rule of time integration"
     ELSE "ok"
MapsOk(m, z, o) == Plots(m) =>
  /\ Len(o.maps) = StepsOf(m)
  /\ \A k \in 1..StepsOf(m) : LET mm == InMotion(m, o.v[k], AccOf(m, o, k), TimeAt(m, k)) IN
       Asked(m) \subseteq DOMAIN o.maps[k] /\ \A n \in Asked(m) : FieldIs(mm, o.maps[k][n], o.u[k], z, n)
Sized(m, s) == Len(s) = StepsOf(m) /\ \A k \in 1..Len(s) : Len(s[k]) = Dofs(m)
JudgeRun(m, z, o) ==
  IF ~Sized(m, o.u) \/ ~Sized(m, o.v) \/ (m.kind = "Hyperbolic" /\ ~Sized(m, o.a)) THEN "not one state for each step"
  ELSE IF ~VClose(o.u[1], Given0(m, StateNames(m))) \/ ~VClose(o.v[1], Given0(m, RateNames(m))) \/ ~VClose(AccOf(m, o, 1), Rest(m)) THEN "the solution does not start from the given state"
  ELSE LET bads == {k \in 2..StepsOf(m) : StepOk(m, z, o, k) # "ok"} IN
       IF bads # {} THEN StepOk(m, z, o, CHOOSE k \in bads : \A j \in bads : k <= j)
       ELSE IF ~MapsOk(m, z, o) THEN "the saved states are not those of the solution"
       ELSE IF ~o.held THEN "the solution the problem holds is not the one it returned"
       ELSE IF ~o.same THEN "solving changed the design" ELSE "ok"

(* ---- criteria: a sum over all steps but the first ---- *)
TCell(m, q, D, c, U, z, X) ==
  LET f == Word(q, "Scalar Function Type")  w == RMul(G!Pen(PenModel(q), CellMean(m, c, z)), Vol(m, c, X)) IN
  CASE f = "Stress P-Norm" -> NormCell(m, q, D, c, U, z, X)
    [] f = "Temperature Average" -> RMul(w, MeanOf(m, c, U, m.nd))
    [] m.kind = "Hyperbolic" -> LET r == Kin(m, D, c, U, X) IN RMul(w, RDot(r.s, r.e))
    [] OTHER -> RMul(w, Energy(m, Kin(m, D, c, U, X), D))
TValue(m, n, us, z, X) ==
  LET q == Entry(m, n)  x == RSum([k \in 1..(Len(us) - 1) |-> Over(m, LAMBDA D, c : TCell(m, q, D, c, us[k + 1], z, X))]) IN
  IF Fun(m, n) = "Stress P-Norm" THEN Root(x, q["Exponent"].v) ELSE x
TKinked(m, n, us, z) == ~Smooth(m, z) \/ DesignKink(m, n, z) \/
  (Fun(m, n) = "Stress P-Norm" /\ (Len(us) < 2 \/ \E k \in 2..Len(us) : NormKink(m, n, us[k], z)))
\* how the states move when design and positions do: s = [ok, u: one change for each step, v, a of the last]; i is the direction (2: design, 3: positions)
RECURSIVE Moves(_, _, _, _, _, _, _, _)
Moves(m, st, z, X, i, Bs, k, s) ==
  IF k > Len(st.u) THEN s.u
  ELSE LET n == Dofs(m)
           v == Rates(m, Rest(m), s.u[k - 1], s.v, s.a)  a == Accels(m, Rest(m), s.u[k - 1], s.v, s.a)
           r == Residual(InMotion(m, AlongOf(st.v[k], v, i, 3), AlongOf(st.a[k], a, i, 3), TimeAt(m, k)), st.u[k], z, X, X, X)
           du == Follows(m, Conditions(m, "0"), Bs[k], Ders(r, i))
       IN Moves(m, st, z, X, i, Bs, k + 1, [u |-> Append(s.u, Vals(du)), v |-> Vals(Rates(m, du, s.u[k - 1], s.v, s.a)), a |-> Vals(Accels(m, du, s.u[k - 1], s.v, s.a))])
Systems(m, st, z) == LET n == Dofs(m) IN Now([k \in 1..Len(st.u) |-> IF k = 1 THEN <<>> ELSE
  LET d == Now([g \in 1..n |-> RVar("0", g, n)])
      U == VAdd(st.u[k], d)  V0 == Rates(m, d, Rest(m), Rest(m), Rest(m))  A0 == Accels(m, d, Rest(m), Rest(m), Rest(m))
  IN System(m, Conditions(m, "0"), Residual(InMotion(m, VAdd(st.v[k], V0), VAdd(st.a[k], A0), TimeAt(m, k)), U, z, m.X, m.X, m.X))])
Sensitivity(m, n, st, z, dz, dx, i, Bs) ==
  LET zz == IF i = 2 THEN Along(z, dz, 2) ELSE z  X == IF i = 3 THEN AlongX(m.X, dx, 3) ELSE m.X
      du == Moves(m, st, zz, X, i, Bs, 2, [u |-> <<Rest(m)>>, v |-> Rest(m), a |-> Rest(m)])
      us == Now([k \in 1..Len(st.u) |-> Along(st.u[k], du[k], i)])
      y == RDer(RAdd(TValue(m, n, us, zz, X), RVar("0", 1, 3)), i)
      at(k) == RMul(Steepness(LAMBDA U : TValue(m, n, [st.u EXCEPT ![k] = U], z, m.X), st.u[k]), SizeOf(du[k]))
      part == RDer(RAdd(TValue(m, n, st.u, zz, X), RVar("0", 1, 3)), i)
  IN [y |-> y, s |-> RAdd(RAbs(part), RSum([k \in 1..Len(st.u) |-> at(k)]))]

(* ------------------------------ judging ------------------------------------ *)
JudgeTrans(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      m == s[e.M]
      p == m.prob
  IN
  CASE e.op = "tres" ->
       IF ~SetsOk(m) THEN (IF e.exc THEN ok(s) ELSE bad("a load on a side set that does not exist was accepted"))
       ELSE IF e.exc THEN bad("the residual failed")
       ELSE LET j == JudgeTres(m, e) IN IF j = "ok" THEN ok(s) ELSE IF j = "known" THEN [v |-> "known", why |-> "F23", st |-> s] ELSE bad(j)
  [] e.op = "tproblem" -> IF ~TProblemOk(m) THEN (IF e.exc THEN ok(s) ELSE bad("an incomplete or contradictory problem was accepted"))
                          ELSE IF e.exc THEN bad("a complete problem was rejected") ELSE ok([s EXCEPT ![e.M].prob = TProblemOf(m)])
  [] p = <<>> -> ok(s)
  [] e.op = "tsolve" ->
       IF ~SetsOk(m) \/ (StepsOf(m) > 1 /\ ~SupportSets(m)) THEN (IF e.exc THEN ok(s) ELSE bad("a set that does not exist was accepted"))
       ELSE IF e.exc THEN bad("solving failed")
       ELSE LET j == JudgeRun(m, e.z, e.out) IN
            IF j # "ok" THEN bad(j)
            ELSE ok([s EXCEPT ![e.M].prob = [p EXCEPT !.ran = TRUE, !.u = e.out.u, !.v = e.out.v, !.a = [k \in 1..StepsOf(m) |-> AccOf(m, e.out, k)]]])
  [] e.op = "tcrit" ->
       LET g == e.name  lin == g \in p.lin
           st == IF e.u = <<>> THEN [u |-> p.u, v |-> p.v, a |-> p.a]
                 ELSE [u |-> e.u, v |-> e.v, a |-> IF m.kind = "Hyperbolic" THEN e.a ELSE [k \in 1..Len(e.u) |-> Rest(m)]]
       IN
       IF g \notin p.lin \cup p.non THEN (IF e.exc THEN ok(s) ELSE bad("a criterion that was not defined was evaluated"))
       ELSE IF ~SetsOk(m) \/ ~SupportSets(m) \/ (m.kind = "Hyperbolic" /\ ~p.ran) THEN ok(s)
       ELSE IF lin THEN
         LET d == Value(m, g, TRUE, Rest(m), Along(e.z, e.dz, 2), AlongX(m.X, e.dx, 3), NoWitness) IN
         IF Doubtful(m, g, TRUE, Rest(m), e.z) THEN ok(s)
         ELSE IF Undefined(m, g, TRUE, Rest(m), e.z, m.X, NoWitness) THEN (IF e.exc THEN ok(s) ELSE bad("a quotient by zero was accepted"))
         ELSE IF e.exc THEN bad("the criterion failed")
         ELSE IF ~e.out.lin \/ ~e.out.same THEN bad("the problem is wrong about which criteria depend on the design alone, or changed the design")
         ELSE IF ~RClose(e.out.r, RVal(d)) THEN bad("the value of the criterion is wrong")
         ELSE IF ~DesignKink(m, g, e.z) /\ ~RClose(e.out.z, RDer(d, 2)) THEN bad("the derivative of the criterion in the design is wrong")
         ELSE IF ~RClose(e.out.x, RDer(d, 3)) THEN bad("the derivative of the criterion in the positions is wrong") ELSE ok(s)
       ELSE IF e.exc THEN bad("the criterion failed")
       ELSE IF e.out.lin \/ ~e.out.same THEN bad("the problem is wrong about which criteria depend on the design alone, or changed the design")
       ELSE LET r == TValue(m, g, st.u, e.z, m.X) IN
         IF ~RClose(e.out.r, RVal(r)) /\ ~RNear(e.out.r, RVal(r), "1", "1/1000000000000") THEN bad("the value of the criterion is wrong")
         ELSE IF TKinked(m, g, st.u, e.z) \/ ~Consistent(Conditions(m, "0")) THEN ok(s)
         ELSE LET As == Systems(m, st, e.z)  Bs == Now([k \in 1..Len(As) |-> IF k = 1 THEN <<>> ELSE RInverse(As[k])]) IN
           IF \E k \in 2..Len(As) : ~Posed(As[k], Bs[k]) THEN ok(s)
           ELSE IF LET w == Sensitivity(m, g, st, e.z, e.dz, e.dx, 2, Bs) IN ~Agrees(e.out.z, w.y, w.s) THEN bad("the derivative of the criterion through the states in the design is wrong")
           ELSE IF LET w == Sensitivity(m, g, st, e.z, e.dz, e.dx, 3, Bs) IN ~Agrees(e.out.x, w.y, w.s) THEN bad("the derivative of the criterion through the states in the positions is wrong")
           ELSE ok(s)
  [] OTHER -> bad("unknown operation")
JudgeT(s, e) ==
  IF e.op # "model" /\ e.M \notin DOMAIN s THEN [v |-> "ok", why |-> "", st |-> s]
  ELSE IF e.op = "model" THEN JudgeFE(s, e) ELSE JudgeTrans(s, e)
=============================================================================
