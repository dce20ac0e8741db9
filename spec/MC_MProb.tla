------------------------------ MODULE MC_MProb ------------------------------
(* Whole mixed problems on one and two cells: laws of the coupled solution    *)
(* and of the derivatives of criteria through it.                             *)
EXTENDS MC_Mixed
VARIABLE pull                    \* how far one condition moves the body
qvars == <<mvars, pull>>

QHold(i, v) == Lst(("Type" :> S("Fixed Value")) @@ ("Sides" :> S("base")) @@ ("Index" :> I(i)) @@ ("Value" :> D(v)))
\* displacements (and the temperature) are held at the base; the pressure is not, or only there
QHeld == {i \in 1..NdM : i # d + 1 \/ mode = 1}
QCrits == (IF phys = "StabilizedMechanics" THEN "energy" :> Lst(("Type" :> S("Scalar Function")) @@ ("Scalar Function Type" :> S("Internal Elastic Energy")) @@ MPen) ELSE <<>>)
  @@ ("tip" :> Lst(("Type" :> S("Solution")) @@ ("Domain" :> S("tip")) @@ ("Normal" :> [t |-> "a", a |-> [i \in 1..NdM |-> RNum(i)]])))
QEv == [MEv EXCEPT !.nsets = ("base" :> IF d = 2 THEN <<0, 1>> ELSE <<0, 1, 2>>) @@ ("tip" :> <<d + mesh - 1>>),
   !.params = @ @@ ("Criteria" :> Lst(QCrits)) @@ ("Essential Boundary Conditions" :> Lst([i \in {ToString(k) : k \in QHeld} |->
                 QHold((CHOOSE k \in 1..NdM : ToString(k) = i) - 1, IF i = "1" THEN pull ELSE "0.0")]))
     @@ ("Time Stepping" :> Lst(("Number Time Steps" :> I(2)) @@ ("Time Step" :> D("1.0")))) @@ ("Newton Iteration" :> Lst("Number Iterations" :> I(mode + 2)))
     @@ ("Linear Solver" :> Lst(("Iterations" :> I(300)) @@ ("Tolerance" :> D("1e-14"))))]
Q0 == ModelOf(QEv)
Mq == [Q0 EXCEPT !.prob = [ProblemOf(Q0) EXCEPT !.bcs = Prescribed(Q0, "0", <<>>), !.read = TRUE]]
Bq == Mq.prob.bcs
\* the coupled equations are linear in the state: one step solves them
Whole0(m, z) == LET r == Wholly(m, Zero, z)  B == RInverse(System(m, Bq, r)) IN
  IF B = <<>> THEN <<>> ELSE LET x == MVec(B, Now([k \in 1..Len(Zero) |-> IF Held(Bq, k) THEN HeldAt(Bq, k) ELSE RNeg(RVal(r[k]))])) IN Now([g \in 1..Len(Zero) |-> RBare(x[g])])
Uq == Whole0(Mq, Z)
InvOf == RInverse(System(Mq, Bq, Wholly(Mq, Uq, Z)))

QInit == MInit /\ pull \in {"0.0", "0.5"}
QNext == ~done /\ mode' \in 0..1 /\ done' = TRUE /\ UNCHANGED <<phys, d, mesh, pen, load, scale, pull>>
QSpec == QInit /\ [][QNext]_qvars

Little(x) == RNear(x, "0", "1", "1e-30")
WholeQ == done => MixedOk(QEv) /\ ProblemOk(Q0) /\ SupportsOk(Q0) /\ Consistent(Bq) /\ Weighs(Mq, Z)
Solvable == (done /\ mesh > 1 /\ mode = 1) => Uq # <<>>
\* the free degrees of freedom are in equilibrium with the projected gradient of their own pressure
QBalance == (done /\ Uq # <<>>) => LET r == Coupled(Mq, Uq, Z, Mq.X) IN
  \A g \in 1..Len(Uq) : IF Held(Bq, g) THEN REq(RVal(Uq[g]), HeldAt(Bq, g)) ELSE Little(RVal(r[g]))
\* a round of the iteration that starts there stays there
Settled == (done /\ Uq # <<>>) => LET r == Open(With(Mq, Vals(Shared(Mq, Uq, Z, Mq.X))), Uq, Z)  B == RInverse(System(Mq, Bq, r)) IN
  B = <<>> \/ LET x == MVec(B, Now([k \in 1..Len(Uq) |-> IF Held(Bq, k) THEN "0" ELSE RNeg(RVal(r[k]))])) IN \A g \in 1..Len(Uq) : Little(x[g])
\* a uniform gradient is shared out as it is, whatever the design weighs
SharedExact == done => LET s == Shared(Mq, LinP, Z, Mq.X) IN \A k \in 1..Len(s) : REq(RVal(s[k]), Even[k])
\* the derivatives are what a small change of the design or of the positions does
\* (the stabilisation takes a root of the volume, which is known to double precision only)
Tiny(n) == IF n = "z" THEN "1/1000000000000000" ELSE "1/100000"
QWorth(m, n, u, z) == RVal(Value(m, n, FALSE, u, z, m.X, NoWitness))
QTilt == [n \in 1..NP |-> RNum(n - 2)]
QSlide == [n \in 1..NP |-> [i \in 1..d |-> IF (n + i) % 2 = 0 THEN "1" ELSE "-1/2"]]
QSlopes == (done /\ Uq # <<>> /\ (Depth > 0 \/ (d = 2 /\ pull = "0.5" /\ load = "Uniform" /\ scale = "4.0"))) =>
  LET B == InvOf  z == Now([k \in 1..NP |-> RAdd(Z[k], RMul(Tiny("z"), QTilt[k]))])
      at(h) == [Mq EXCEPT !.X = Now([k \in 1..NP |-> VAdd(Mq.X[k], VScale(h, QSlide[k]))])]
      m == at(Tiny("x"))  mm == at(RNeg(Tiny("x")))
      uz == Whole0(Mq, z)  ux == Whole0(m, Z)  uxx == Whole0(mm, Z)
  IN \A n \in DOMAIN QCrits : LET w == MThrough(Mq, n, Uq, Z, QTilt, QSlide, B) IN
       /\ RNear(RDiv(RSub(QWorth(Mq, n, uz, z), QWorth(Mq, n, Uq, Z)), Tiny("z")), RVal(w.z), w.sz, "1e-9")
       /\ RNear(RDiv(RSub(QWorth(m, n, ux, Z), QWorth(mm, n, uxx, Z)), RMul("2", Tiny("x"))), RVal(w.x), w.sx, "1e-6")
\* nothing pulls, nothing moves
QStill == (done /\ pull = "0.0" /\ load = "none") => Uq = <<>> \/ \A g \in 1..Len(Uq) : RIsZero(RVal(Uq[g]))

QEmit == done => PrintT("SCEN " \o ToJson(<<QEv, [op |-> "problem", M |-> "m"], [op |-> "bcs", M |-> "m"], [op |-> "msolve", M |-> "m", z |-> Z]>>
  \o [i \in 1..3 |-> [op |-> "mcrit", M |-> "m", name |-> <<"tip", "none", IF phys = "StabilizedMechanics" THEN "energy" ELSE "tip">>[i], z |-> Z, u |-> <<>>, xfirst |-> (mode = 1),
       dz |-> [n \in 1..NP |-> IF n % 2 = 0 THEN "1" ELSE "-0.5"], dx |-> [n \in 1..NP |-> [k \in 1..d |-> IF (n + k + mode) % 2 = 0 THEN "1" ELSE "-0.5"]]]]))
=============================================================================
