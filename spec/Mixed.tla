------------------------------- MODULE Mixed --------------------------------
(* Mixed forms: displacements and pressure (and temperature), stabilised by   *)
(* what a projection of the pressure gradient to the nodes leaves out.  The   *)
(* projected gradient is the field vel of the model, one vector per node.     *)
EXTENDS Prob

Along4(x, dx, i) == AlongOf(x, dx, i, 4)
AlongX4(X, dX, i) == Now([n \in 1..Len(X) |-> Along4(X[n], dX[n], i)])
With(m, P) == [m EXCEPT !.vel = P]

(* ---- the projection ---- *)
ProList(p) == Sub(p, "State Gradient Projection")
ProKind(p) == IF Has(PenOf(ProList(p)), "Type", "s") THEN PenKind(ProList(p)) ELSE "none"
ProPen(p) == G!FromList(ProKind(p), PenOf(ProList(p)))
ProScale(p) == LET q == Sub(p, "Material Models") IN IF Has(q, "Pressure Scaling", "d") THEN q["Pressure Scaling"].v ELSE "1"
MixedOk(e) == ModelOk(e) /\ ProKind(e.params) # "unknown"
\* in a cell: the projected gradient less the gradient of the pressure p, by the design
ProCell(m, c, P, p, z, X) ==
  LET d == m.d  xs == Corners(m, c, X)  B == Grads(d, xs)  s == ProScale(m.p)
      f == RDiv(RMul(G!Pen(ProPen(m.p), CellMean(m, c, z)), Volume(d, xs)), d + 1)
      g == K!Grad(d, [n \in 1..(d + 1) |-> p[m.E[c][n]]], 1, 0, B)
  IN Now([i \in 1..d |-> RMul(f, RSub(G!Mean([n \in 1..(d + 1) |-> P[((m.E[c][n] - 1) * d) + i]]), RMul(s, g[i])))])
\* each corner gets its share
ProResidual(m, P, p, z, X) ==
  LET dc == DomCells(m)  d == m.d
      cf == Now([q \in 1..Len(dc) |-> ProCell(m, m.doms[dc[q][1]].cells[dc[q][2]], P, p, z, X)])
  IN Now([k \in 1..(NN(m) * d) |-> LET nod == ((k - 1) \div d) + 1  i == k - ((nod - 1) * d) IN
       RSum([q \in 1..Len(dc) |-> IF \E n \in 1..(d + 1) : m.E[m.doms[dc[q][1]].cells[dc[q][2]]][n] = nod THEN cf[q][i] ELSE "0"])])

(* ------------------------------ judging ------------------------------------ *)
Slopes(e, r, smooth) ==
  IF ~VClose(e.out.r, Vals(r)) THEN "the residual is wrong"
  ELSE IF ~VClose(e.out.u, Ders(r, 1)) THEN "the derivative of the residual in the state is wrong"
  ELSE IF ~VClose(e.out.uT, Ders(r, 1)) THEN "the transposed derivative of the residual in the state is wrong"
  ELSE IF ~VClose(e.out.n, Ders(r, 4)) \/ ~VClose(e.out.cn, Ders(r, 4)) THEN "the derivative of the residual in the node state is wrong"
  ELSE IF ~VClose(e.out.nT, Ders(r, 4)) THEN "the transposed derivative of the residual in the node state is wrong"
  ELSE IF smooth /\ (~VClose(e.out.z, Ders(r, 2)) \/ ~VClose(e.out.cz, Ders(r, 2))) THEN "the derivative of the residual in the design is wrong"
  ELSE IF ~e.out.same THEN "the evaluation changed its arguments" ELSE "ok"
JudgeMRes(m, e) ==
  LET U == Along4(e.u, e.du, 1)  z == Along4(e.z, e.dz, 2)  X == AlongX4(m.X, e.dx, 3)  mm == With(m, Along4(e.n, e.dn, 4))
      r == Residual(mm, U, z, X, X, X)
      w == Residual(mm, U, z, X, m.X, m.X)           \* known finding: loads at the positions of the mesh
      s == Slopes(e, r, Smooth(m, e.z))
  IN IF s # "ok" THEN s
     ELSE IF DOMAIN e.out.map # Asked(m) THEN "the output is not what was asked for"
     ELSE IF \E n \in Asked(m) : ~FieldOk(m, e, n) THEN "a field was output with wrong values"
     ELSE IF VClose(e.out.x, Ders(r, 3)) /\ VClose(e.out.cx, Ders(r, 3)) THEN "ok"
     ELSE IF VClose(e.out.x, Ders(w, 3)) /\ VClose(e.out.cx, Ders(w, 3)) THEN "known" ELSE "the derivative of the residual in the positions is wrong"
JudgePro(m, e) ==
  LET P == Along4(e.u, e.du, 1)  z == Along4(e.z, e.dz, 2)  X == AlongX4(m.X, e.dx, 3)  p == Along4(e.n, e.dn, 4)
      r == ProResidual(m, P, p, z, X)
      s == Slopes(e, r, Smooth([m EXCEPT !.pen = ProPen(m.p)], e.z))
  IN IF s # "ok" THEN s
     ELSE IF DOMAIN e.out.map # {} THEN "the projection put out a field"
     ELSE IF VClose(e.out.x, Ders(r, 3)) /\ VClose(e.out.cx, Ders(r, 3)) THEN "ok" ELSE "the derivative of the residual in the positions is wrong"
(* ---- a whole problem ---- *)
Pressures(m, U) == Now([n \in 1..NN(m) |-> U[((n - 1) * m.nd) + m.d + 1]])
\* what each node weighs, and the gradient of the pressure shared out by that weight
Weights(m, z, X) == LET dc == DomCells(m)  d == m.d
                        w == Now([q \in 1..Len(dc) |-> LET c == m.doms[dc[q][1]].cells[dc[q][2]] IN RDiv(RMul(G!Pen(ProPen(m.p), CellMean(m, c, z)), Vol(m, c, X)), d + 1)])
  IN Now([nod \in 1..NN(m) |-> RSum([q \in 1..Len(dc) |-> IF \E n \in 1..(d + 1) : m.E[m.doms[dc[q][1]].cells[dc[q][2]]][n] = nod THEN w[q] ELSE "0"])])
Weighs(m, z) == LET w == Weights(m, z, m.X) IN \A n \in 1..NN(m) : ~RIsZero(RVal(w[n]))
Shared(m, U, z, X) == LET r == ProResidual(m, VZero(NN(m) * m.d), Pressures(m, U), z, X)  w == Weights(m, z, X) IN
  Now([k \in 1..(NN(m) * m.d) |-> RNeg(RDiv(r[k], w[((k - 1) \div m.d) + 1]))])
\* the residual with the gradient that belongs to the state
Coupled(m, U, z, X) == Residual(With(m, Shared(m, U, z, X)), U, z, X, X, X)
Count(m, l, k, default) == LET q == Sub(m.p, l) IN IF Has(q, k, "i") THEN q[k].i ELSE default
Steps(m) == Count(m, "Time Stepping", "Number Time Steps", 1)
Rounds(m) == Count(m, "Newton Iteration", "Number Iterations", 2)
\* each round projects the pressure of the last one and then solves with that gradient held; <<>> when that is not well posed
RECURSIVE Round(_, _, _, _, _)
Round(m, z, b, u, k) ==
  IF k >= Rounds(m) THEN u
  ELSE LET r == Open(With(m, Vals(Shared(m, u, z, m.X))), u, z)  A == System(m, b, r)  B == RInverse(A)
           f == Now([g \in 1..Len(u) |-> IF Held(b, g) THEN (IF k = 0 THEN HeldAt(b, g) ELSE "0") ELSE RNeg(RVal(r[g]))])
       IN IF ~Posed(A, B) THEN <<>> ELSE Round(m, z, b, Vals(VAdd(u, MVec(B, f))), k + 1)
Wholly(m, u, z) == LET n == Dofs(m) IN Coupled(m, Now([k \in 1..n |-> RVar(u[k], k, n)]), z, m.X)
\* derivatives of a criterion through the state, its pressure gradient projected along with it
MThrough(m, n, u, z, dz, dx, B) ==
  LET b == m.prob.bcs  X == AlongX(m.X, dx, 3)
      rz == Coupled(m, u, Along(z, dz, 2), m.X)  rx == Coupled(m, u, z, X)
      val(U, zz, XX) == Value(m, n, FALSE, U, zz, XX, NoWitness)
      uz == Now(Follows(m, b, B, Ders(rz, 2)))  ux == Now(Follows(m, b, B, Ders(rx, 3)))
      vz == val(Along(u, uz, 1), Along(z, dz, 2), m.X)  vx == val(Along(u, ux, 1), z, X)
      f == Steepness(LAMBDA U : val(U, z, m.X), u)
  IN [r |-> RVal(vz), z |-> RAdd(RDer(vz, 1), RDer(vz, 2)), x |-> RAdd(RDer(vx, 1), RDer(vx, 3)),
      sz |-> RAdd(RAbs(RDer(vz, 2)), RMul(f, SizeOf(uz))), sx |-> RAdd(RAbs(RDer(vx, 3)), RMul(f, SizeOf(ux)))]
JudgeMProb(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      m == s[e.M]
      p == m.prob
      idle == Steps(m) < 2
      free == p.bcs = <<>>
  IN
  CASE e.op = "problem" -> IF ~ProblemOk(m) THEN (IF e.exc THEN ok(s) ELSE bad("an incomplete or contradictory problem was accepted"))
                           ELSE IF e.exc THEN bad("a complete problem was rejected") ELSE ok([s EXCEPT ![e.M].prob = ProblemOf(m)])
  [] p = <<>> -> ok(s)
  [] e.op \in {"bcs", "setbcs"} -> JudgeProb(s, e)
  [] e.op = "msolve" ->
       IF ~SetsOk(m) /\ ~idle THEN (IF e.exc \/ Rounds(m) = 0 THEN ok(s) ELSE bad("a load on a side set that does not exist was accepted"))
       ELSE IF free /\ ~idle /\ Rounds(m) > 0 THEN (IF e.exc THEN ok(s) ELSE bad("a problem without supports was solved"))
       ELSE IF e.exc THEN bad("solving failed")
       ELSE IF Len(e.out.u) # Steps(m) THEN bad("not as many states as steps")
       ELSE IF e.out.now # e.out.u THEN bad("the solution the problem holds is not the one it returned")
       ELSE IF ~e.out.same THEN bad("solving changed the design")
       ELSE IF \E g \in 1..Dofs(m) : ~RIsZero(e.out.u[1][g]) THEN bad("the initial state is not zero")
       ELSE LET w == IF p.read /\ Consistent(p.bcs) /\ Weighs(m, e.z) THEN Round(m, e.z, p.bcs, VZero(Dofs(m)), 0) ELSE <<>>
                t == [s EXCEPT ![e.M].prob.u = e.out.u[Steps(m)]] IN
         IF w # <<>> /\ \E k \in 2..Steps(m) : ~NearTo(e.out.u[k], w) THEN bad("the state is not the solution") ELSE ok(t)
  [] e.op = "mcrit" ->
       LET u == IF e.u = <<>> THEN p.u ELSE e.u
           g == e.name  lin == g \in p.lin IN
       IF g \notin p.lin \cup p.non THEN (IF e.exc THEN ok(s) ELSE bad("a criterion that was not defined was evaluated"))
       ELSE IF ~lin /\ free /\ ~idle THEN (IF e.exc THEN ok(s) ELSE bad("a criterion was differentiated through a problem without supports"))
       ELSE IF (~lin /\ (~p.read \/ ~Consistent(p.bcs) \/ ~Weighs(m, e.z))) \/ Doubtful(m, g, lin, u, e.z) THEN ok(s)
       ELSE LET d == Value(m, g, lin, u, Along(e.z, e.dz, 2), AlongX(m.X, e.dx, 3), NoWitness) IN
            IF Undefined(m, g, lin, u, e.z, m.X, NoWitness) THEN (IF e.exc THEN ok(s) ELSE bad("a quotient by zero was accepted"))
            ELSE IF e.exc THEN bad("the criterion failed")
            ELSE IF ~e.out.same THEN bad("the evaluation changed the design")
            ELSE IF ~RClose(e.out.r, RVal(d)) /\ ~RNear(e.out.r, RVal(d), "1", "1/1000000000000") THEN bad("the value of the criterion is wrong")
            ELSE IF lin \/ idle THEN (IF ~DesignKink(m, g, e.z) /\ ~RClose(e.out.z, RDer(d, 2)) THEN bad("the derivative of the criterion in the design is wrong")
                                      ELSE IF RClose(e.out.x, RDer(d, 3)) THEN ok(s) ELSE bad("the derivative of the criterion in the positions is wrong"))
            ELSE IF Kinked(m, g, u, e.z) \/ ~Smooth([m EXCEPT !.pen = ProPen(m.p)], e.z) THEN ok(s)
            ELSE LET A == System(m, p.bcs, Wholly(m, u, e.z))  B == RInverse(A) IN
                 IF ~Posed(A, B) THEN ok(s)
                 ELSE LET w == MThrough(m, g, u, e.z, e.dz, e.dx, B) IN
                      IF ~Agrees(e.out.z, w.z, w.sz) THEN bad("the derivative of the criterion through the state in the design is wrong")
                      ELSE IF ~Agrees(e.out.x, w.x, w.sx) THEN bad("the derivative of the criterion through the state in the positions is wrong") ELSE ok(s)
  [] OTHER -> bad("unknown operation")
JudgeMixed(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      say(j) == IF j = "ok" THEN ok(s) ELSE IF j = "known" THEN [v |-> "known", why |-> "F23", st |-> s] ELSE bad(j)
  IN
  IF e.op # "model" /\ e.M \notin DOMAIN s THEN ok(s)
  ELSE
  CASE e.op = "model" -> IF MixedOk(e) THEN (IF e.exc THEN bad("a complete model was rejected") ELSE ok(Upd(s, e.M, ModelOf(e))))
                         ELSE IF e.exc THEN ok(s) ELSE bad("an incomplete or contradictory model was accepted")
  [] e.op \in {"ebc", "crit", "ceval"} -> JudgeCrit(s, e)
  [] e.op = "mres" -> LET m == s[e.M] IN
       IF ~SetsOk(m) THEN (IF e.exc THEN ok(s) ELSE bad("a load on a side set that does not exist was accepted"))
       ELSE IF e.exc THEN bad("the residual failed") ELSE say(JudgeMRes(m, e))
  [] e.op = "proj" -> IF e.exc THEN bad("the projection failed") ELSE say(JudgePro(s[e.M], e))
  [] OTHER -> JudgeMProb(s, e)
=============================================================================
