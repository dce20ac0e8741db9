------------------------------ MODULE MC_Crit -------------------------------
(* Criteria and boundary conditions on small meshes: laws their values obey.  *)
EXTENDS MC_FE, Crit
CONSTANT Part                    \* "functions", "composites" or "supports"
VARIABLE what
cvars == <<vars, what>>

Arr(x) == [t |-> "a", a |-> x]
Names(x) == [t |-> "as", as |-> x]
Penalty == "Penalty Function" :> Lst(("Type" :> S(pen)) @@ ("Minimum Value" :> D("0.125")))
Scalar(f) == Lst(("Type" :> S("Scalar Function")) @@ ("Scalar Function Type" :> S(f)) @@ Penalty)
Energies == {"Internal Elastic Energy", "Internal Thermal Energy", "Internal Thermoelastic Energy", "Internal Electroelastic Energy"}
EnergyOf == CHOOSE f \in Energies : f \in Functions(phys)
\* other data a function takes
More(f) == CASE f \in {"Stress P-Norm", "Flux P-Norm"} -> "Exponent" :> D("2.0")
             [] f = "Effective Energy" -> "Assumed Strain" :> Arr([k \in 1..Volt(d) |-> RNum(k)])
             [] OTHER -> <<>>
Fn(f) == Lst(Scalar(f).l @@ More(f))
Ws == <<"2", "-1">>
Mass(ps, gs) == Lst(("Type" :> S("Mass Properties")) @@ ("Properties" :> Names(ps)) @@ ("Weights" :> Arr([i \in 1..Len(ps) |-> "1"])) @@ ("Gold Values" :> Arr(gs)))
Group == ("f" :> Fn(EnergyOf)) @@ ("g" :> IF phys = "Thermomechanics" THEN Fn("Volume") ELSE Fn(EnergyOf))
  @@ ("sum" :> Lst(("Type" :> S("Weighted Sum")) @@ ("Functions" :> Names(<<"f", "g">>)) @@ ("Weights" :> Arr(Ws))))
  @@ ("quot" :> Lst(("Type" :> S("Division")) @@ ("Numerator" :> S("sum")) @@ ("Denominator" :> S("g"))))
  @@ ("fit" :> Lst(("Type" :> S("Least Squares")) @@ ("Functions" :> Names(<<"f", "sum">>)) @@ ("Weights" :> Arr(<<"1", "3">>)) @@ ("Gold Values" :> Arr(<<"2", "0.05">>))))
  @@ ("at" :> Lst(("Type" :> S("Solution")) @@ ("Domain" :> S("n")) @@ ("Normal" :> Arr([i \in 1..NdM |-> RNum(i)]))))
  @@ ("mass" :> Mass(<<"Mass">>, <<"2">>)) @@ ("cg" :> Mass(<<"CGx", "CGz">>, <<"1", "0">>)) @@ ("inert" :> Mass(<<"Ixx", "Ixy">>, <<"0", "0.5">>))
Composites == {"sum", "quot", "fit", "at"} \cup (IF d = 3 THEN {"mass", "cg", "inert"} ELSE {})
\* two sets of nodes that share one
SetN == [k \in 1..2 |-> k - 1]
SetM == [k \in 1..(NPts(d, mesh) - 1) |-> k]
Support(s, i) == Lst(("Type" :> S(IF s = "n" THEN "Fixed Value" ELSE "Zero Value")) @@ ("Sides" :> S(s)) @@ ("Index" :> I(i)) @@ (IF s = "n" THEN "Value" :> D("1.5") ELSE <<>>))
Given == CASE what = "none" -> <<>> [] what = "one" -> "a" :> Support("n", 0) [] OTHER -> ("a" :> Support("n", NdM - 1)) @@ ("b" :> Support("m", 0))
CEv == [Ev EXCEPT !.nsets = ("n" :> SetN) @@ ("m" :> SetM),
                  !.params = @ @@ (IF Part = "supports" THEN "Essential Boundary Conditions" :> Lst(Given)
                                   ELSE "Criteria" :> Lst(IF Part = "functions" THEN what :> Fn(what) ELSE Group))
                               @@ (IF what = "Effective Energy" THEN "Cell Problem Forcing" :> Lst("Column Index" :> I(0)) ELSE <<>>)]
Mc == ModelOf(CEv)
Val(n, u, z, X) == Value(Mc, n, FALSE, u, z, X, NoWitness)
V0(n, u) == Val(n, u, Z, Mc.X)

CInit == /\ phys \in Physics /\ d \in 1..3 /\ mesh \in NCells(d) /\ pen \in (IF Depth = 0 THEN {"SIMP"} ELSE {"SIMP", "RAMP", "Heaviside"})
         /\ load = "none" /\ mode = 0 /\ done = FALSE
         /\ what \in (CASE Part = "functions" -> Functions(phys) [] Part = "composites" -> Composites [] OTHER -> {"none", "one", "two"})
CNext == ~done /\ mode' \in 1..(NdM + 1) /\ done' = TRUE /\ UNCHANGED <<phys, d, mesh, pen, load, what>>
CSpec == CInit /\ [][CNext]_cvars

Fin == done /\ Part = "functions"
Com == done /\ Part = "composites"
Whole2 == ModelOk(CEv) /\ (Part # "supports" => Made(Mc, what, FALSE) = "made")
\* the derivative of an energy in the state is the force of the residual (twice, where the energy is not halved)
u1 == Some(mode)
u2 == Some(mode + 4)
Ray == [k \in 1..Len(u1) |-> RAdd(u1[k], RMul(u2[k], RVar("0", 1, 1)))]
Force == (Fin /\ what \in Energies /\ phys # "Thermomechanics") =>
  REq(RVal(RDer(V0(what, Ray), 1)), RMul(IF phys = "Mechanics" THEN "1" ELSE "2", RDot(u2, Res(u1))))
\* no strain: no energy, no stress, whatever the design
NoStrain == (Fin /\ what \in Energies \cup {"Stress P-Norm", "Flux P-Norm"}) => RIsZero(RVal(V0(what, Rigid(mode))))
Definite == (Fin /\ what \in {"Internal Elastic Energy", "Internal Thermal Energy", "Stress P-Norm", "Flux P-Norm", "Volume", "Density Penalty"}) => RLeq("0", RVal(V0(what, u1)))
\* degree of homogeneity in the state
Degree == CASE what \in Energies -> 2 [] what \in {"Stress P-Norm", "Flux P-Norm"} -> 1 [] OTHER -> 0
Homogeneous == (Fin /\ what # "Effective Energy") => RNear(RVal(V0(what, VScale("3", u1))), RMul(RIPow("3", Degree), RVal(V0(what, u1))), "1", "1e-12")
\* cutting a domain in two changes nothing
Cut == [Mc EXCEPT !.doms = LET D0 == Mc.doms["D"] IN ("D" :> [D0 EXCEPT !.cells = <<D0.cells[1]>>]) @@ ("E" :> [D0 EXCEPT !.cells = Tail(D0.cells)])]
Additive == (done /\ Part # "supports") => RNear(RVal(V0(what, u1)), RVal(Value(Cut, what, FALSE, u1, Z, Mc.X, NoWitness)), "1", "1e-12")
\* the numbering of the nodes does not matter (criteria on node sets are told by numbers)
CTurn == [Mc EXCEPT !.X = [n \in 1..NPts(d, mesh) |-> Mc.X[Back[n]]], !.E = [c \in 1..mesh |-> [n \in 1..(d + 1) |-> Turn[Mc.E[c][n]]]]]
CRenumbered == (done /\ Part # "supports" /\ what # "at") =>
  RNear(RVal(V0(what, u1)), RVal(Value(CTurn, what, FALSE, Carry(u1), [n \in 1..NPts(d, mesh) |-> Z[Back[n]]], CTurn.X, NoWitness)), "1", "1e-12")
\* moving the body moves its centre and nothing else of its first three properties
Shift1 == [n \in 1..Len(Mc.X) |-> [i \in 1..d |-> RAdd(Mc.X[n][i], IF i = 1 THEN "3" ELSE "0")]]
Moved == (Com /\ d = 3) => /\ REq(MassOf(Mc, Z, Mc.X), MassOf(Mc, Z, Shift1))
                           /\ REq(First(Mc, Z, Shift1, 1), RAdd(First(Mc, Z, Mc.X, 1), RMul("3", MassOf(Mc, Z, Mc.X))))
                           /\ REq(First(Mc, Z, Shift1, 2), First(Mc, Z, Mc.X, 2))
                           /\ REq(Inertia(Mc, Z, Shift1, 1, 1), Inertia(Mc, Z, Mc.X, 1, 1))
                           /\ REq(Inertia(Mc, Z, Mc.X, 1, 2), Inertia(Mc, Z, Mc.X, 2, 1))
\* composites
Combine == Com => LET v(n) == RVal(V0(n, u1)) IN
  CASE what = "sum" -> REq(v("sum"), RSub(RMul("2", v("f")), v("g")))
    [] what = "quot" -> RIsZero(v("g")) \/ REq(RMul(v("quot"), v("g")), v("sum"))
    [] what = "fit" -> RLeq("0", v("fit")) /\ (RIsZero(v("fit")) <=> REq(v("f"), "2") /\ REq(v("sum"), "0.05"))
    [] what = "at" -> \A k \in 1..2 : REq(v("at"), RDiv(RAdd(RDot(Mc.p["Criteria"].l["at"].l["Normal"].a, [i \in 1..NdM |-> u1[i]]), RDot(Mc.p["Criteria"].l["at"].l["Normal"].a, [i \in 1..NdM |-> u1[NdM + i]])), 2))
    [] OTHER -> RLeq("0", v(what))
\* boundary conditions: each node of each set, once per condition, at the named degree of freedom
Held == (done /\ Part = "supports") => LET p == Prescribed(Mc, "0", <<>>) IN
  /\ SupportsOk(Mc)
  /\ Len(p) = (CASE what = "none" -> 0 [] what = "one" -> 2 [] OTHER -> 2 + Len(SetM))
  /\ \A i \in 1..Len(p) : /\ p[i][1] >= 0 /\ p[i][1] < Dofs(Mc)
                          /\ \E n \in DOMAIN Supports(Mc) : LET b == Supports(Mc)[n].l IN \E j \in 1..Len(Mc.nsets[b["Sides"].s]) : p[i][1] = (Mc.nsets[b["Sides"].s][j] * NdM) + IndexOf(b)
Emit2 == done => PrintT("SCEN " \o ToJson(<<CEv>> \o
  (IF Part = "supports" THEN <<[op |-> "ebc", M |-> "m", time |-> "0", scale |-> <<>>]>>
   ELSE <<[op |-> "crit", M |-> "m", name |-> what, linear |-> FALSE],
          [op |-> "ceval", M |-> "m", name |-> what, linear |-> FALSE, u |-> u1, du |-> Rigid(mode), z |-> Z, dz |-> [n \in 1..NPts(d, mesh) |-> "1"],
           dx |-> [n \in 1..NPts(d, mesh) |-> [i \in 1..d |-> IF (n + i + mode) % 2 = 0 THEN "1" ELSE "-0.5"]]]>>)))
=============================================================================
