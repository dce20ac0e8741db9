------------------------------- MODULE MC_Prob ------------------------------
(* Whole problems on one to three cells: laws of the solution and of the      *)
(* derivatives of criteria through it.                                        *)
EXTENDS MC_FE, Prob
VARIABLE pull                    \* how far one condition moves the body
pvars == <<vars, pull>>

Base == CASE d = 1 -> <<0>> [] d = 2 -> <<0, 1>> [] OTHER -> <<0, 1, 2>>
Hold(i, v) == Lst(("Type" :> S("Fixed Value")) @@ ("Sides" :> S("base")) @@ ("Index" :> I(i)) @@ ("Value" :> D(v)))
EnergyP == CASE phys = "Mechanics" -> "Internal Elastic Energy" [] phys = "Thermal" -> "Internal Thermal Energy"
             [] phys = "Thermomechanics" -> "Internal Thermoelastic Energy" [] OTHER -> "Internal Electroelastic Energy"
PenP == "Penalty Function" :> Lst(("Type" :> S(pen)) @@ ("Minimum Value" :> D("0.125")))
Crits == ("energy" :> Lst(("Type" :> S("Scalar Function")) @@ ("Scalar Function Type" :> S(EnergyP)) @@ PenP))
  @@ ("tip" :> Lst(("Type" :> S("Solution")) @@ ("Domain" :> S("tip")) @@ ("Normal" :> [t |-> "a", a |-> [i \in 1..NdM |-> RNum(i)]])))
  @@ ("volume" :> Lst(("Type" :> S("Scalar Function")) @@ ("Scalar Function Type" :> S("Volume")) @@ PenP @@ ("Linear" :> [t |-> "b", b |-> TRUE])))
PEv == [Ev EXCEPT !.nsets = ("base" :> Base) @@ ("tip" :> <<d + mesh - 1>>),
                  !.params = @ @@ ("Criteria" :> Lst(Crits)) @@ ("Essential Boundary Conditions" :> Lst([i \in {ToString(k) : k \in 1..NdM} |->
                               Hold((CHOOSE k \in 1..NdM : ToString(k) = i) - 1, IF i = "1" THEN pull ELSE "0.0")]))
                               @@ ("Newton Iteration" :> Lst("Maximum Iterations" :> I(mode + 1)))
                               @@ ("Linear Solver" :> Lst(("Iterations" :> I(300)) @@ ("Tolerance" :> D("1e-14"))))]
M0 == ModelOf(PEv)
Mp == [M0 EXCEPT !.prob = [ProblemOf(M0) EXCEPT !.bcs = Prescribed(M0, "0", <<>>), !.read = TRUE]]
Uz == Solved(Mp, Z)
Direct(n) == LET r == Open(Mp, Uz, Z)  A == System(Mp, Mp.prob.bcs, r)  B == RInverse(A)
                 dz == [k \in 1..NPts(d, mesh) |-> RNum(k - 2)]  dx == [k \in 1..NPts(d, mesh) |-> [i \in 1..d |-> IF (k + i) % 2 = 0 THEN "1" ELSE "-1/2"]]
             IN [t |-> Through(Mp, n, Uz, Z, dz, dx, B), r |-> r, B |-> B, dz |-> dz]

PInit == /\ phys \in Physics /\ d \in 1..3 /\ mesh \in NCells(d) /\ pen \in (IF Depth = 0 THEN {"SIMP"} ELSE {"SIMP", "RAMP", "Heaviside"})
         /\ load \in {"none", "Uniform"} /\ pull \in {"0.0", "0.5"} /\ mode = 0 /\ done = FALSE
PNext == ~done /\ mode' \in 0..1 /\ done' = TRUE /\ UNCHANGED <<phys, d, mesh, pen, load, pull>>
PSpec == PInit /\ [][PNext]_pvars

WholeP == ModelOk(PEv) /\ ProblemOk(M0) /\ SupportsOk(M0) /\ Consistent(Prescribed(M0, "0", <<>>))
Small(x) == RNear(x, "0", "1", "1e-40")
\* the free degrees of freedom are in equilibrium, the held ones where they are held
InBalance == done => LET r == Residual(Mp, Uz, Z, Mp.X, Mp.X, Mp.X) IN
  \A g \in 1..Len(Uz) : IF Held(Mp.prob.bcs, g) THEN REq(RVal(Uz[g]), HeldAt(Mp.prob.bcs, g)) ELSE Small(RVal(r[g]))
\* these are linear: further steps change nothing
OneStep == (done /\ mode > 0) => \A g \in 1..Len(Uz) : Small(RSub(Uz[g], Iterate([Mp EXCEPT !.p = Upd(@, "Newton Iteration", Lst("Maximum Iterations" :> I(1)))], Z, Mp.prob.bcs, Zero, 0)[g]))
\* what the adjoint gives: a multiplier solves the transposed system with the derivative in the state, zero where held
AdjointAgrees == done => \A n \in {"energy", "tip"} :
  LET q == Direct(n)  k == Dofs(Mp)
      U == Now([g \in 1..k |-> RVar(Uz[g], g, k)])
      v == Value(Mp, n, FALSE, U, Z, Mp.X, NoWitness)
      fu == [g \in 1..k |-> IF Held(Mp.prob.bcs, g) THEN "0" ELSE RDer(v, g)]
      lam == MVec(MTrans(q.B), VScale("-1", fu))
      free == [g \in 1..k |-> IF Held(Mp.prob.bcs, g) THEN "0" ELSE lam[g]]
      rz == Ders(Residual(Mp, Uz, Along(Z, q.dz, 2), Mp.X, Mp.X, Mp.X), 2)
  IN Small(RSub(q.t.z, RAdd(q.t.pz, RDot(free, rz))))
\* without prescribed motion the energy of a linear problem is self-adjoint
SelfAdjointOk == (done /\ pull = "0.0" /\ phys \in {"Mechanics", "Thermal"}) => LET t == Direct("energy").t IN Small(RAdd(t.z, t.pz))
\* nothing pulls, nothing moves
Still == (done /\ pull = "0.0" /\ load = "none") => \A g \in 1..Len(Uz) : RIsZero(RVal(Uz[g]))
\* motion of the support alone, where nothing else holds the body, is carried along rigidly
Carried == (done /\ load = "none" /\ (d = 1 \/ phys = "Thermal")) => \A g \in 1..Len(Uz) : Small(RSub(Uz[g], IF Dof(g) = 1 THEN pull ELSE "0"))

PEmit == done => PrintT("SCEN " \o ToJson(<<PEv, [op |-> "problem", M |-> "m"], [op |-> "bcs", M |-> "m"], [op |-> "solve", M |-> "m", z |-> Z]>>
  \o [i \in 1..4 |-> [op |-> "pcrit", M |-> "m", name |-> <<"energy", "tip", "volume", "none">>[i], z |-> Z, u |-> <<>>, xfirst |-> (mode = 1),
       dz |-> [n \in 1..NPts(d, mesh) |-> IF n % 2 = 0 THEN "1" ELSE "-0.5"], dx |-> [n \in 1..NPts(d, mesh) |-> [k \in 1..d |-> IF (n + k + mode) % 2 = 0 THEN "1" ELSE "-0.5"]]]]))
=============================================================================
