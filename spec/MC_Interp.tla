------------------------------ MODULE MC_Interp -----------------------------
(* One cell: nodal states, an evaluation point, a value to spread back.       *)
(* "rules": every quadrature rule and container size around the supported.    *)
EXTENDS Interp, Json

CONSTANTS Kind, Depth

VARIABLES dim, x, u, val, done

Pts(d) == CASE d = 1 -> {<<"1/2">>, <<"1">>, <<"1/4">>}
            [] d = 2 -> {<<"1/4", "1/2">>, <<"0", "1">>, <<"0", "0">>}
            [] OTHER -> {<<"1/4", "1/4", "1/4">>, <<"1/8", "1/2", "1/8">>, <<"0", "0", "1">>}
Phi(d, p) == [k \in 1..(d + 1) |-> IF k <= d THEN p[k] ELSE RSub("1", RSum(p))]
Unit(n, k) == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
States(d) == {Unit(d * (d + 1), k) : k \in 1..(d * (d + 1))} \cup {[i \in 1..(d * (d + 1)) |-> ToString(((i * i) % 7) - 3)]}
Vals(d) == {Unit(d, k) : k \in 1..d} \cup (IF Depth = 0 THEN {} ELSE {[i \in 1..d |-> ToString((2 * i) - 3)]})
Init == IF Kind = "rules" THEN /\ dim \in 0..4 /\ u \in -1..5 /\ x \in (-1)..1 /\ val \in {<<a, b>> : a \in {0, 1}, b \in {0, -1, 1}} /\ done = FALSE
        ELSE dim \in {1, 2, 3} /\ x \in Pts(dim) /\ u \in States(dim) /\ val \in Vals(dim) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<dim, x, u, val>>
Spec == Init /\ [][Next]_<<dim, x, u, val, done>>

Field == Kind = "field"
phi == Phi(dim, x)
Out == [i \in 1..dim |-> At(phi, u, dim, i)]
Back == Spread(phi, "3", val, dim, 0, VZero(dim * (dim + 1)), "1")
\* projection is the adjoint of interpolation (times the volume)
Adjoint == Field => REq(RDot(Back, u), RMul("3", RDot(val, Out)))
\* constants are reproduced, and what is spread adds up to volume times value
Unity == Field => /\ REq(RSum(phi), "1")
                  /\ \A i \in 1..dim : REq(RSum([n \in 1..(dim + 1) |-> Back[Dof(n, dim, i)]]), RMul("3", val[i]))
\* interpolating at a node gives the node's value
Nodal == Field => \A n \in 1..(dim + 1) : phi = Unit(dim + 1, n) => \A i \in 1..dim : REq(Out[i], u[Dof(n, dim, i)])
\* complex damping dissipates nothing on the diagonal: (re, im) . damping = 0 when both matrices are multiples of the identity
Skew == Field /\ dim = 3 => LET z == [i \in 1..6 |-> u[i]] IN
  \A w \in {"complex", "adjoint"} : RIsZero(RDot(z, Damp(w, 3, "2", "3", z, z)))
\* the adjoint damping is the transpose of the damping
Transposed == Field /\ dim = 3 => LET z == [i \in 1..6 |-> u[i]]  y == [i \in 1..6 |-> u[i + 6]] IN
  REq(RDot(y, Damp("complex", 3, "2", "3", z, z)), RDot(z, Damp("adjoint", 3, "2", "3", y, y)))
\* integrals of monomials over the simplex: the volume is 1/d!
VolumeOk == \A d \in 1..3 : REq(Integral(d, [i \in 1..d |-> 0]), RDiv("1", Fact(d)))

P2(y, k) == <<y, ToString(k)>>
PV(y) == [i \in 1..Len(y) |-> P2(y[i], (2 * i) - 3)]
R0(n) == [i \in 1..n |-> P2("9", i)]
FieldOps == <<[op |-> "interpv", dim |-> dim, a |-> 0, b |-> 0, u |-> <<PV(u)>>, phi |-> phi, r0 |-> <<R0(dim)>>, cells |-> <<0>>],
              [op |-> "projv", dim |-> dim, a |-> 0, b |-> 0, s |-> <<PV(val)>>, phi |-> phi, vol |-> <<P2("3", 1)>>, r0 |-> <<PV(u)>>, scale |-> "none", cells |-> <<0>>],
              [op |-> "inertia", s |-> <<PV(val)>>, phi |-> phi, vol |-> <<P2("3", 1)>>, rho |-> "5", r0 |-> <<PV(u)>>, cells |-> <<0>>],
              [op |-> "values", u |-> <<PV(u)>>, phi |-> phi, r0 |-> <<R0(dim)>>, cells |-> <<0>>],
              [op |-> "basis", dim |-> dim, x |-> <<x>>], [op |-> "tetrule", dim |-> dim]>>
Emit == done => PrintT("SCEN " \o ToJson(IF Field THEN FieldOps ELSE <<[op |-> "cub", dim |-> dim, degree |-> u, dn |-> x, dd |-> val[1], dw |-> val[2]]>>))
=============================================================================
