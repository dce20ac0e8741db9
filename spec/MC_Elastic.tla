----------------------------- MODULE MC_Elastic ------------------------------
(* Every kind of material over small sets of constants: laws of the stiffness *)
(* and of the responses.                                                      *)
EXTENDS Elastic, Json

CONSTANTS Kind, Depth

VARIABLES dim, def, unit, done

Dbl(x) == [t |-> "d", v |-> x]
Lst(x) == [t |-> "l", l |-> x]
Es == {"1", "3"}   Nus == {"0", "1/4", "-1/3"}
IsoL(E, v) == ("Youngs Modulus" :> Dbl(E)) @@ ("Poissons Ratio" :> Dbl(v)) @@ ("e11" :> Dbl("1/8")) @@ ("RayleighB" :> Dbl("1/2"))
CubL(a, b, c) == ("C11" :> Dbl(a)) @@ ("C12" :> Dbl(b)) @@ ("C44" :> Dbl(c)) @@ ("Mass Density" :> Dbl("7"))
OrL(e1, e2, e3, n1, n2, n3) == ("Youngs Modulus X" :> Dbl(e1)) @@ ("Youngs Modulus Y" :> Dbl(e2)) @@ ("Youngs Modulus Z" :> Dbl(e3)) @@
  ("Poissons Ratio XY" :> Dbl(n1)) @@ ("Poissons Ratio XZ" :> Dbl(n2)) @@ ("Poissons Ratio YZ" :> Dbl(n3)) @@
  ("Shear Modulus XY" :> Dbl("2")) @@ ("Shear Modulus XZ" :> Dbl("5")) @@ ("Shear Modulus YZ" :> Dbl("4")) @@ ("Youngs Modulus" :> Dbl("2")) @@ ("Poissons Ratio" :> Dbl("1/4"))
EmL(E, v, a) == ("Youngs Modulus" :> Dbl(E)) @@ ("Poissons Ratio" :> Dbl(v)) @@ ("e33" :> Dbl("3")) @@ ("e31" :> Dbl("-2")) @@ ("e15" :> Dbl("5")) @@
  ("p11" :> Dbl("7")) @@ ("p33" :> Dbl("9")) @@ ("Alpha" :> Dbl(a))
Defs == {<<"elastic", "Isotropic Linear Elastic", IsoL(E, v)>> : E \in Es, v \in Nus}
   \cup {<<"elastic", "Cubic Linear Elastic", CubL(a, b, c)>> : a \in {"4"}, b \in {"1", "-1"}, c \in {"1", "2"}}
   \cup {<<"elastic", "Orthotropic Linear Elastic", OrL(e1, e2, e3, n1, n2, n3)>> : e1 \in Es, e2 \in {"1", "2", "-1"}, e3 \in {"1"}, n1 \in {"0", "1/4", "-2"}, n2 \in {"1/3"}, n3 \in (IF Depth = 0 THEN {"-1/5"} ELSE {"-1/5", "1/2", "0", "9/10"})}
   \cup {<<"electro", "Isotropic Linear Electroelastic", EmL(E, v, a)>> : E \in Es, v \in {"1/4"}, a \in {"1", "3/2"}}
Unit(n, k) == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
Units(d) == {Unit(NV(d), k) : k \in 1..NV(d)}
Init == dim \in {1, 2, 3} /\ def \in Defs /\ unit \in Units(dim) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<dim, def, unit>>
Spec == Init /\ [][Next]_<<dim, def, unit, done>>

Params == "Material Models" :> Lst("m" :> Lst(def[2] :> Lst(def[3])))
F == Factory(def[1], dim, "m", Params, "none")
Ok == F.w = "model"
(* ------------------------------- laws -------------------------------------- *)
\* the stiffness is symmetric: the work of one strain in the stress of another does not depend on their order
Symmetric == Ok => \A i, j \in 1..NV(dim) : REq(F.m.C[i][j], F.m.C[j][i])
\* a stable material stores energy in every strain that is not zero
Positiv == (Ok /\ def[2] = "Orthotropic Linear Elastic") => RLt("0", RDot(unit, Stress(F.m.C, unit)))
\* uniaxial stress: stiffness times compliance is the identity
Uniaxial == (Ok /\ def[2] = "Orthotropic Linear Elastic" /\ dim > 1) =>
  \A k \in 1..dim : LET S == Comp(dim, def[3])  e == [i \in 1..NV(dim) |-> IF i <= dim THEN S[i][k] ELSE "0"]  s == Stress(F.m.C, e) IN \A i \in 1..NV(dim) : REq(s[i], IF i = k THEN "1" ELSE "0")
\* no stress at the reference strain
Relaxed == (Ok /\ def[1] = "elastic") => \A i \in 1..NV(dim) : RIsZero(LinStress(F.m, F.m.ref)[i])
\* the coupling of the electroelastic law is reciprocal: alpha e appears in both equations with opposite signs
Reciprocal == (Ok /\ def[1] = "electro") => \A k \in 1..dim :
  REq(RNeg(RDot(unit, EmStress(F.m, VZero(NV(dim)), Unit(dim, k)))), EmDisp(F.m, unit, VZero(dim))[k])
\* an unstable orthotropic material has no stiffness that is positive
Rejects == (F.w = "fail") => (\E k \in OrthoKeys(dim) : RLt(Val(def[3], k), "0")) \/ \E q \in Pairs(dim) : ~PairOk(def[3], q)

P2(x, k) == <<x, ToString(k)>>
PV(x) == [i \in 1..Len(x) |-> P2(x[i], (2 * i) - 3)]
PZ(n) == [i \in 1..n |-> P2("0", 0)]
Mk == [op |-> "make", dim |-> dim, kind |-> def[1], name |-> "m", p |-> Params, eq |-> "none", M |-> "A"]
Use == IF def[1] = "elastic"
  THEN <<[op |-> "lstress", dim |-> dim, M |-> "A", what |-> "model", e |-> <<PV(unit)>>, v |-> <<PV(unit)>>, r0 |-> <<PV(unit)>>, cells |-> <<0>>],
         [op |-> "lstress", dim |-> dim, M |-> "A", what |-> "damped", e |-> <<PV(unit)>>, v |-> <<PV(unit)>>, r0 |-> <<PV(unit)>>, cells |-> <<0>>],
         [op |-> "homog", dim |-> dim, M |-> "A", col |-> 0, e |-> <<PV(unit)>>, r0 |-> <<PV(unit)>>, cells |-> <<0>>]>>
  ELSE <<[op |-> "emkin", dim |-> dim, M |-> "A", e |-> <<PV(unit)>>, g |-> <<PV(Unit(dim, 1))>>, r0 |-> <<PV(unit)>>, q0 |-> <<PZ(dim)>>, cells |-> <<0>>]>>
Emit == done => PrintT("SCEN " \o ToJson(<<Mk>> \o (IF Ok THEN Use ELSE <<>>)))
=============================================================================
