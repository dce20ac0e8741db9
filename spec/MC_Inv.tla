------------------------------- MODULE MC_Inv -------------------------------
(* A grid of tensors; the invariants are checked against one another.         *)
EXTENDS Invariants, Json

CONSTANTS Kind, Depth

VARIABLES dim, v

Vals == IF Depth = 0 THEN {"0", "1", "-3/4"} ELSE {"0", "1", "-3/4", "5/2", "-2"}
Shears == IF Depth = 0 THEN {"0", "-1/2", "2"} ELSE {"0", "-1/2", "2", "1", "-3"}
Grid(d) == CASE d = 1 -> {<<a>> : a \in Vals}
             [] d = 2 -> {<<a, b, c>> : a \in Vals, b \in Vals, c \in Shears}
             [] OTHER -> {<<a, b, c, s, t, u>> : a \in Vals, b \in Vals, c \in {"0", "2"}, s \in Shears, t \in {"0", "-1/4"}, u \in Shears}
Init == dim \in {1, 2, 3} /\ v = <<>>
Next == v = <<>> /\ v' \in Grid(dim) /\ UNCHANGED dim
Spec == Init /\ [][Next]_<<dim, v>>

Near(a, b) == RNear(a, b, "1", "1/1000000000000000000000000000000")
Set == v # <<>>
Ident == MIdent(6)
\* independent of the mean stress in space, and of the sign of the stress
MisesLaws == Set => /\ (dim = 3 => Near(Mises(3, [i \in 1..6 |-> IF i < 4 THEN RAdd(v[i], "7") ELSE v[i]]), Mises(3, v)))
                    /\ Near(Mises(dim, [i \in 1..Len(v) |-> RNeg(v[i])]), Mises(dim, v))
                    /\ (dim = 2 => Near(Sq(Mises(2, v)), RAdd(RSub(RAdd(Sq(v[1]), Sq(v[2])), RMul(v[1], v[2])), RMul("3", Sq(v[3])))))
\* the plane and the uniaxial measures are the spatial ones
Embeds == Set => Near(Mises(dim, v), Mises(3, Full(dim, v)))
\* with identity maps and exponent two Barlat's measure is the von Mises stress
BarlatIsMises == Set => Near(RDiv(BarlatSum(dim, v, Ident, Ident, 2), "4"), Sq(Mises(dim, v)))
\* the double sum is not negative and does not depend on the order of the two maps
BarlatEven == Set => \A m \in {2, 4, 6} : RLeq("0", BarlatSum(dim, v, Ident, Ident, m))
\* splitting into tension and compression loses nothing
TensileSplits == Set /\ dim = 2 =>
  LET p == <<v[1], v[2]>>  q == <<RNeg(v[1]), RNeg(v[2])>> IN
  REq(RAdd(Tensile(2, p, "3", "5"), Tensile(2, q, "3", "5")), RAdd(RMul("5", RAdd(Sq(v[1]), Sq(v[2]))), RMul("3/2", Sq(RAdd(v[1], v[2])))))
NormLaws == Set => /\ REq(PNorm(v, "2", "1"), RSum([i \in 1..Len(v) |-> Sq(v[i])]))
                   /\ Near(PNorm([i \in 1..Len(v) |-> RMul("-2", v[i])], "3", "1"), RMul("8", PNorm(v, "3", "1")))
                   /\ Near(Weighted(v, "1", "1", "1", "1"), PNorm(v, "1", "1"))

P2(x, k) == <<x, ToString(k)>>
PV(x) == [i \in 1..Len(x) |-> P2(x[i], (3 * i) - 5)]
R0(n) == [i \in 1..n |-> P2("9", i)]
Ops == <<[op |-> "mises", dim |-> dim, v |-> <<PV(v)>>, r0 |-> R0(1), cells |-> <<0>>],
         [op |-> "principal", dim |-> dim, v |-> <<PV(v)>>, r0 |-> <<R0(dim)>>, cells |-> <<0>>, sweeps |-> 6, strain |-> FALSE],
         [op |-> "principal", dim |-> dim, v |-> <<PV(v)>>, r0 |-> <<R0(dim)>>, cells |-> <<0>>, sweeps |-> 24, strain |-> TRUE],
         [op |-> "dot", a |-> <<PV(v)>>, b |-> <<PV(v)>>, r0 |-> R0(1), cells |-> <<0>>],
         [op |-> "tensile", dim |-> dim, v |-> <<PV([i \in 1..dim |-> v[i]])>>, r0 |-> R0(1), cells |-> <<0>>, lam |-> "5/4", mu |-> "3"],
         [op |-> "vpnorm", v |-> <<PV(v)>>, r0 |-> R0(1), cells |-> <<0>>, p |-> 3, vol |-> <<P2("3/2", 1)>>]>>
Emit == Set => PrintT("SCEN " \o ToJson(Ops))
=============================================================================
