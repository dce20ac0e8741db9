------------------------------ MODULE MC_Kinem ------------------------------
(* One cell of each dimension: the basis gradients of a few simplices, all    *)
(* unit states and unit stresses (the operators are linear in each), rigid    *)
(* motions, uniform strains.                                                  *)
EXTENDS Kinem, Json

CONSTANTS Kind, Depth

VARIABLES dim, B, u, s, done

\* gradients of the reference simplex pushed through an integer matrix (rows sum to zero over the nodes)
Ref(d) == [n \in 1..(d + 1) |-> [i \in 1..d |-> IF n = d + 1 THEN "-1" ELSE IF n = i THEN "1" ELSE "0"]]
Maps(d) == CASE d = 1 -> {<<<<"1">>>>, <<<<"-3/2">>>>}
             [] d = 2 -> {<<<<"1", "0">>, <<"0", "1">>>>, <<<<"2", "-1">>, <<"1/2", "3">>>>}
             [] OTHER -> {<<<<"1", "0", "0">>, <<"0", "1", "0">>, <<"0", "0", "1">>>>, <<<<"2", "-1", "1">>, <<"0", "3", "1/2">>, <<"1", "0", "-4">>>>}
Bs(d) == {MMul(Ref(d), M) : M \in Maps(d)}
Unit(n, k) == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
States(d) == {Unit(d * (d + 1), k) : k \in 1..(d * (d + 1))} \cup (IF Depth = 0 THEN {} ELSE {[i \in 1..(d * (d + 1)) |-> ToString(((i * i) % 7) - 3)]})
Stresses(d) == {Unit(NV(d), k) : k \in 1..NV(d)} \cup (IF Depth = 0 THEN {} ELSE {[i \in 1..NV(d) |-> ToString(((3 * i) % 5) - 2)]})
Init == dim \in {1, 2, 3} /\ B \in Bs(dim) /\ u \in States(dim) /\ s \in Stresses(dim) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<dim, B, u, s>>
Spec == Init /\ [][Next]_<<dim, B, u, s, done>>

(* ------------------------------- laws -------------------------------------- *)
Force == [k \in 1..(dim * (dim + 1)) |-> LET n == ((k - 1) \div dim) + 1 IN StressForce(dim, s, B, "3", n, k - ((n - 1) * dim))]
\* virtual work: nodal forces times displacements = volume times stress times strain
Adjoint == REq(RDot(Force, u), RMul("3", RDot(s, Strain(dim, u, dim, 0, B))))
\* nodal forces are in equilibrium, and so are their moments for the reference cell
Equilibrium == \A i \in 1..dim : RIsZero(RSum([n \in 1..(dim + 1) |-> Force[Dof(n, dim, i)]]))
\* a translation strains nothing
Rigid == LET t == [k \in 1..(dim * (dim + 1)) |-> ToString(((k - 1) % dim) + 2)] IN \A k \in 1..NV(dim) : RIsZero(Strain(dim, t, dim, 0, B)[k])
\* a pressure is the stress p I: same forces
PressureIsStress == LET p == [k \in 1..NV(dim) |-> IF k <= dim THEN "5" ELSE "0"] IN
  \A n \in 1..(dim + 1), i \in 1..dim : REq(StressForce(dim, p, B, "3", n, i), PressForce("5", B, "3", n, i))
\* the map of components is a bijection onto unordered pairs of directions
VoigtOk == \A i, j \in 1..dim : Comp(dim, i, j) = Comp(dim, j, i) /\ \E k \in 1..NV(dim) : Comp(dim, i, j) = k

P2(x, k) == <<x, ToString(k)>>
PV(x) == [i \in 1..Len(x) |-> P2(x[i], (2 * i) - 3)]
PM(x) == [i \in 1..Len(x) |-> PV(x[i])]
PZ(n) == [i \in 1..n |-> P2("0", 0)]
Wide(nd) == [k \in 1..((dim + 1) * nd) |-> LET n == ((k - 1) \div nd) + 1  i == k - ((n - 1) * nd) IN IF i <= dim THEN u[Dof(n, dim, i)] ELSE ToString(k)]
Kin(w, nd) == [op |-> "kin", what |-> w, dim |-> dim, u |-> <<PV(Wide(nd))>>, B |-> <<PM(B)>>, e0 |-> <<PZ(NV(dim))>>, g0 |-> <<PZ(dim)>>, h0 |-> <<PZ(dim)>>, cells |-> <<0>>]
Ops == <<Kin("stab", dim + 1), Kin("tm", dim + 1), Kin("em", dim + 1), Kin("stabtm", dim + 2),
         [op |-> "sdiv", dim |-> dim, a |-> 0, b |-> 0, s |-> <<PV(s)>>, B |-> <<PM(B)>>, vol |-> <<P2("3", 1)>>, r0 |-> <<PV(u)>>, scale |-> "2", cells |-> <<0>>],
         [op |-> "voigt", dim |-> dim]>>
Emit == done => PrintT("SCEN " \o ToJson(Ops))
=============================================================================
