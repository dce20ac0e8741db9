-------------------------------- MODULE Prob --------------------------------
(* A whole elliptic problem: the state it solves for, and the derivatives of  *)
(* criteria through that state.                                               *)
EXTENDS Crit

(* ---- from the input to a problem ---- *)
CritNames(m) == DOMAIN Sub(m.p, "Criteria")
IsLinear(m, n) == LET q == Entry(m, n) IN Has(q, "Linear", "b") /\ q["Linear"].b
StackOk(m) == LET q == Sub(m.p, "Linear Solver") IN Has(q, "Solver Stack", "s") => q["Solver Stack"].s = "Epetra"
ProblemOk(m) == /\ \A n \in CritNames(m) : Has(Sub(m.p, "Criteria"), n, "l") /\ Made(m, n, IsLinear(m, n)) # "bad"
                /\ StackOk(m)
Given(m, l) == {n \in CritNames(m) : IsLinear(m, n) = l /\ Made(m, n, l) = "made"}
ProblemOf(m) == [lin |-> Given(m, TRUE), non |-> Given(m, FALSE), bcs |-> <<>>, read |-> FALSE, u |-> VZero(Dofs(m))]
Newton(m, k, t, default) == LET q == Sub(m.p, "Newton Iteration") IN IF Has(q, k, t) THEN (IF t = "i" THEN q[k].i ELSE q[k].v) ELSE default
SelfAdjoint(m) == Has(m.p, "Self-Adjoint", "b") /\ m.p["Self-Adjoint"].b

(* ---- the constrained system ---- *)
\* b: the conditions, pairs <<degree of freedom from zero, value>>
Held(b, g) == \E i \in 1..Len(b) : b[i][1] = g - 1
HeldAt(b, g) == b[CHOOSE i \in 1..Len(b) : b[i][1] = g - 1][2]
Consistent(b) == \A i, j \in 1..Len(b) : b[i][1] = b[j][1] => REq(b[i][2], b[j][2])
Fixed(m, z) == Residual(m, VZero(Dofs(m)), z, m.X, m.X, m.X)
\* the residual at u, its variables the degrees of freedom
Open(m, u, z) == LET n == Dofs(m)  U == Now([k \in 1..n |-> RVar(u[k], k, n)]) IN Residual(m, U, z, m.X, m.X, m.X)
System(m, b, r) == LET n == Dofs(m) IN Now([i \in 1..n |-> Now([j \in 1..n |-> IF Held(b, i) THEN (IF i = j THEN "1" ELSE "0") ELSE RDer(r[i], j)])])
Rows(A) == RMaxAbs([i \in 1..Len(A) |-> RSum([j \in 1..Len(A) |-> RAbs(A[i][j])])])
\* solvable, and not so nearly singular that rounding decides the outcome
Posed(A, B) == B # <<>> /\ RLt(RMul(Rows(A), Rows(B)), "10000000")
Norm(v) == LET s == RDot(v, v) IN IF RIsZero(RVal(s)) THEN "0" ELSE RVal(RSqrt(RVal(s)))
\* Newton's method: from u, k steps already taken.  A step solves the linearised equation on the free degrees of freedom; the first also moves
\* the held ones to their values.  -> the state, or <<>> when a step is not well posed or a stopping rule too close to call
RECURSIVE Iterate(_, _, _, _, _)
Iterate(m, z, b, u, k) ==
  LET most == Newton(m, "Maximum Iterations", "i", 1)
      rt == Newton(m, "Residual Tolerance", "d", "0")  it == Newton(m, "Increment Tolerance", "d", "0")
      near(x, t) == RNear(x, t, t, "1/1000000")
  IN IF k >= most THEN u
     ELSE LET r == Open(m, u, z)  rn == Norm(Vals(r)) IN
       IF k > 0 /\ ~RIsZero(rt) /\ near(rn, rt) THEN <<>>
       ELSE IF k > 0 /\ RLt(rn, rt) THEN u
       ELSE LET A == System(m, b, r)  B == RInverse(A)
                f == Now([g \in 1..Len(u) |-> IF Held(b, g) THEN (IF k = 0 THEN HeldAt(b, g) ELSE "0") ELSE RNeg(RVal(r[g]))])
                d == MVec(B, f)  v == VAdd(u, d)  dn == Norm(Vals(d))
            IN IF ~Posed(A, B) THEN <<>>
               ELSE IF most > 1 /\ ~RIsZero(it) /\ near(dn, it) THEN <<>>
               ELSE IF most > 1 /\ RLt(dn, it) THEN v ELSE Iterate(m, z, b, v, k + 1)
Solved(m, z) == Iterate(m, z, m.prob.bcs, VZero(Dofs(m)), 0)
NearTo(x, y) == LET s == RMaxAbs(y) IN Len(x) = Len(y) /\ \A i \in 1..Len(x) : RNear(x[i], RVal(y[i]), s, "1/1000000")

(* ---- derivatives through the state ---- *)
\* how the state moves when the residual moves by dr: it stays in equilibrium, and where it is held
Follows(m, b, B, dr) == MVec(B, [g \in 1..Len(dr) |-> IF Held(b, g) THEN "0" ELSE RNeg(RVal(dr[g]))])
\* the size of the derivative of F in the state
Steepness(F(_), u) == LET n == Len(u)  v == F(Now([k \in 1..n |-> RVar(RBare(u[k]), k, n)])) IN Norm([k \in 1..n |-> RBare(RDer(v, k))])
SizeOf(v) == Norm([k \in 1..Len(v) |-> RBare(v[k])])
\* value, and the derivatives along (dz) and (dx) of the criterion as a function of design and positions alone
Through(m, n, u, z, dz, dx, B) ==
  LET b == m.prob.bcs
      rz == Residual(m, u, Along(z, dz, 2), m.X, m.X, m.X)  X == AlongX(m.X, dx, 3)  rx == Residual(m, u, z, X, X, X)
      val(U, zz, XX) == Value(m, n, FALSE, U, zz, XX, NoWitness)
      uz == Now(Follows(m, b, B, Ders(rz, 2)))  ux == Now(Follows(m, b, B, Ders(rx, 3)))
      vz == val(Along(u, uz, 1), Along(z, dz, 2), m.X)  vx == val(Along(u, ux, 1), z, X)
      f == Steepness(LAMBDA U : val(U, z, m.X), u)
  IN [r |-> RVal(vz), z |-> RAdd(RDer(vz, 1), RDer(vz, 2)), x |-> RAdd(RDer(vx, 1), RDer(vx, 3)),
      pz |-> RDer(vz, 2), px |-> RDer(vx, 3), sz |-> RAdd(RAbs(RDer(vz, 2)), RMul(f, SizeOf(uz))), sx |-> RAdd(RAbs(RDer(vx, 3)), RMul(f, SizeOf(ux)))]
Kinked(m, n, u, z) == ~Smooth(m, z) \/ DesignKink(m, n, z) \/ NormKink(m, n, u, z)
\* up to the accuracy of an iterative solution, in proportion to s: the explicit part, and the derivative in the state times the change of the state (a
\* solution that starts from the previous one leaves an error proportional to that, whence the floor); and up to rounding
Agrees(x, y, s) == RNear(x, RVal(y), RMax(s, "1/1000"), "1/1000000") \/ RNear(x, RVal(y), RMag(y), "1/1000000000000")

\* a quotient by what is nothing but rounding may be anything
Doubtful(m, n, lin, u, z) == \E k \in Parts(m, n) : KindOf(m, k) = "Division" /\
  LET c == Entry(m, k)["Denominator"].s IN Negligible(<<Value(m, c, lin, u, z, m.X, NoWitness)>>) \/ NormKink(m, c, u, z)

(* ------------------------------ judging ------------------------------------ *)
SavedOk(m, e, u) ==
  LET plot == Plots(m)  f == [u |-> u, z |-> e.z, out |-> [map |-> e.out.map]] IN
  /\ e.out.saved = (IF plot THEN 1 ELSE 0)
  /\ plot => Asked(m) \subseteq DOMAIN e.out.map /\ \A k \in Asked(m) : FieldOk(m, f, k)
JudgeProb(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      m == s[e.M]
      p == m.prob
  IN
  CASE e.op = "problem" -> IF ~ProblemOk(m) THEN (IF e.exc THEN ok(s) ELSE bad("an incomplete or contradictory problem was accepted"))
                           ELSE IF e.exc THEN bad("a complete problem was rejected") ELSE ok([s EXCEPT ![e.M].prob = ProblemOf(m)])
  [] p = <<>> -> ok(s)
  [] e.op = "bcs" -> IF ~Has(m.p, "Essential Boundary Conditions", "l") \/ ~SupportsOk(m) THEN (IF e.exc THEN ok(s) ELSE bad("missing or contradictory boundary conditions were accepted"))
                     ELSE IF e.exc THEN bad("complete boundary conditions were rejected")
                     ELSE ok([s EXCEPT ![e.M].prob.bcs = Prescribed(m, "0", <<>>), ![e.M].prob.read = TRUE])
  [] e.op = "setbcs" -> IF Len(e.dofs) # Len(e.values) THEN (IF e.exc THEN ok(s) ELSE bad("conditions without values were accepted"))
                        ELSE IF e.exc THEN bad("given boundary conditions were rejected")
                        ELSE ok([s EXCEPT ![e.M].prob.bcs = [i \in 1..Len(e.dofs) |-> <<e.dofs[i], e.values[i]>>], ![e.M].prob.read = TRUE])
  [] e.op = "setstate" -> IF e.exc THEN bad("a given state was rejected")
                          ELSE IF Len(e.out.now) # 1 \/ ~VClose(e.out.now[1], e.u) \/ ~e.out.same THEN bad("the state the problem holds is not the one it was given") ELSE ok([s EXCEPT ![e.M].prob.u = e.out.now[1]])
  [] e.op = "solve" ->
       IF ~SetsOk(m) THEN (IF e.exc THEN ok(s) ELSE bad("a load on a side set that does not exist was accepted"))
       ELSE IF e.exc THEN bad("solving failed")
       ELSE LET u == e.out.u[1]  w == IF p.read /\ Consistent(p.bcs) THEN Solved(m, e.z) ELSE <<>>  t == [s EXCEPT ![e.M].prob.u = u] IN
         IF e.out.now # e.out.u THEN bad("the solution the problem holds is not the one it returned")
         ELSE IF ~e.out.same THEN bad("solving changed the design")
         ELSE IF w # <<>> /\ ~NearTo(u, w) THEN bad("the state is not the solution")
         ELSE IF w # <<>> /\ ~SavedOk(m, e, u) THEN bad("the saved state is not that of the solution")
         ELSE ok(t)
  [] e.op = "pcrit" ->
       LET u == IF e.u = <<>> THEN p.u ELSE e.u
           g == e.name  lin == g \in p.lin IN
       IF g \notin p.lin \cup p.non THEN (IF e.exc THEN ok(s) ELSE bad("a criterion that was not defined was evaluated"))
       ELSE IF ~p.read \/ ~Consistent(p.bcs) THEN ok(s)
       ELSE LET r == Open(m, u, e.z)  A == System(m, p.bcs, r)  B == RInverse(A)
                undef == Undefined(m, g, lin, u, e.z, m.X, NoWitness)
                d == Value(m, g, lin, u, Along(e.z, e.dz, 2), AlongX(m.X, e.dx, 3), NoWitness)
            IN IF Doubtful(m, g, lin, u, e.z) THEN ok(s)
               ELSE IF undef THEN (IF e.exc THEN ok(s) ELSE bad("a quotient by zero was accepted"))
               ELSE IF e.exc THEN bad("the criterion failed")
               ELSE IF e.out.lin # lin THEN bad("the problem is wrong about which criteria depend on the design alone")
               ELSE IF ~e.out.same THEN bad("the evaluation changed the design")
               ELSE IF ~RClose(e.out.r, RVal(d)) /\ ~RNear(e.out.r, RVal(d), "1", "1/1000000000000") THEN bad("the value of the criterion is wrong")
               ELSE IF lin THEN (IF ~DesignKink(m, g, e.z) /\ ~RClose(e.out.z, RDer(d, 2)) THEN bad("the derivative of the criterion in the design is wrong")
                                 ELSE IF RClose(e.out.x, RDer(d, 3)) THEN ok(s) ELSE bad("the derivative of the criterion in the positions is wrong"))
               ELSE IF Kinked(m, g, u, e.z) THEN ok(s)
               ELSE IF SelfAdjoint(m) THEN (IF RClose(e.out.z, RNeg(RDer(d, 2))) /\ RClose(e.out.x, RNeg(RDer(d, 3))) THEN ok(s) ELSE bad("the derivative of a self-adjoint criterion is wrong"))
               ELSE IF ~Posed(A, B) THEN ok(s)
               ELSE LET w == Through(m, g, u, e.z, e.dz, e.dx, B) IN
                    IF ~Agrees(e.out.z, w.z, w.sz) THEN bad("the derivative of the criterion through the state in the design is wrong")
                    ELSE IF ~Agrees(e.out.x, w.x, w.sx) THEN bad("the derivative of the criterion through the state in the positions is wrong")
                    ELSE ok(s)
  [] OTHER -> bad("unknown operation")
Judge1(s, e) ==
  IF e.op # "model" /\ e.M \notin DOMAIN s THEN [v |-> "ok", why |-> "", st |-> s]
  ELSE CASE e.op \in {"model", "res"} -> JudgeFE(s, e)
         [] e.op \in {"ebc", "crit", "ceval"} -> JudgeCrit(s, e)
         [] OTHER -> JudgeProb(s, e)
=============================================================================
