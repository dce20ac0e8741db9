------------------------------- MODULE MC_FE --------------------------------
(* Finite element models on one to three cells, every physics and dimension:  *)
(* laws the residual obeys whatever the material, penalty and design.         *)
EXTENDS FE, TLC, Json
CONSTANTS Kind, Depth
VARIABLES phys, d, mesh, pen, load, mode, done
vars == <<phys, d, mesh, pen, load, mode, done>>

Physics == IF Kind = "mech" THEN {"Mechanics"} ELSE {"Thermal", "Thermomechanics", "Electromechanics"}
Pts(dim) == CASE dim = 1 -> <<<<"0">>, <<"1">>, <<"5/2">>, <<"3">>>>
  [] dim = 2 -> <<<<"0", "0">>, <<"1", "0">>, <<"1/8", "1">>, <<"1", "9/8">>>>
  [] OTHER -> <<<<"0", "0", "0">>, <<"1", "0", "0">>, <<"1/8", "1", "0">>, <<"0", "1/8", "1">>, <<"1", "1", "1">>>>
Cells0(dim) == CASE dim = 1 -> <<<<0, 1>>, <<1, 2>>, <<2, 3>>>> [] dim = 2 -> <<<<0, 1, 2>>, <<3, 2, 1>>>> [] OTHER -> <<<<0, 1, 2, 3>>, <<3, 1, 2, 4>>>>
NCells(dim) == IF Depth = 0 THEN IF dim = 1 THEN {1, 3} ELSE {2} ELSE 1..Len(Cells0(dim))
NPts(dim, k) == dim + k
\* values are written as the drivers record them: decimals
D(x) == [t |-> "d", v |-> x]
S(x) == [t |-> "s", s |-> x]
I(x) == [t |-> "i", i |-> x]
Lst(x) == [t |-> "l", l |-> x]
MatList == CASE phys = "Mechanics" -> ("Isotropic Linear Elastic" :> Lst(("Youngs Modulus" :> D("2.5")) @@ ("Poissons Ratio" :> D("0.25"))))
  [] phys = "Thermal" -> ("Thermal Conduction" :> Lst("Thermal Conductivity" :> D("3.0")))
  [] phys = "Thermomechanics" -> ("Thermoelastic" :> Lst(("Elastic Stiffness" :> Lst(("Youngs Modulus" :> D("2.5")) @@ ("Poissons Ratio" :> D("0.25"))))
                                                        @@ ("Thermal Expansivity" :> D("0.5")) @@ ("Thermal Conductivity" :> D("3.0")) @@ ("Reference Temperature" :> D("0.0"))))
  [] OTHER -> ("Isotropic Linear Electroelastic" :> Lst([k \in L!EmKeys(d) |-> D(IF k = "Poissons Ratio" THEN "0.25" ELSE "2.0")]))
\* pressures act on vectors of displacements
Pressure == load = "Uniform Pressure" /\ phys # "Thermal"
LoadName == IF phys \in {"Mechanics", "Thermal"} THEN "Natural Boundary Conditions" ELSE "Mechanical Natural Boundary Conditions"
Closed == LET ss == {<<c, k>> \in (1..mesh) \X (1..(d + 1)) : TRUE}        \* the sides that belong to one cell
              nodes(q) == LET n == SideNodes(d, q[2]) IN {Cells0(d)[q[1]][n[i]] : i \in 1..Len(n)}
          IN SetSeq({<<q[1] - 1, q[2] - 1>> : q \in {x \in ss : \A y \in ss : y = x \/ nodes(x) # nodes(y)}})
Params == ("PDE Constraint" :> S("Elliptic")) @@ ("Elliptic" :> Lst("Penalty Function" :> Lst(("Type" :> S(pen)) @@ ("Minimum Value" :> D("0.125")))))
  @@ ("Spatial Model" :> Lst("Domains" :> Lst("D" :> Lst(("Element Block" :> S("b")) @@ ("Material Model" :> S("m"))))))
  @@ ("Material Models" :> Lst("m" :> Lst(MatList)))
  @@ (IF load = "none" THEN <<>> ELSE LoadName :> Lst("l" :> Lst(("Type" :> S(load)) @@ ("Sides" :> S("all")) @@ ("Value" :> D("2.0")))))
Ev == [op |-> "model", M |-> "m", phys |-> phys, dim |-> d, X |-> [n \in 1..NPts(d, mesh) |-> Pts(d)[n]], E |-> [c \in 1..mesh |-> Cells0(d)[c]],
       sideperm |-> 1, unsorted |-> TRUE, blocks |-> ("b" :> [c \in 1..mesh |-> c - 1]), sides |-> ("all" :> Closed), nsets |-> <<>>, exprs |-> <<>>, params |-> Params]
Mo == ModelOf(Ev)
NdM == NDof(phys, d)
Nod(g) == ((g - 1) \div NdM) + 1
Dof(g) == g - ((Nod(g) - 1) * NdM)
\* motions without strain: translations and, by node positions, rotations; a constant last field
X0(n) == Pts(d)[n]
Rigid(k) == [g \in 1..(NPts(d, mesh) * NdM) |-> LET n == Nod(g)  i == Dof(g) IN
  IF k <= NdM THEN IF i = k /\ ~(phys = "Thermomechanics" /\ i > d) THEN "1" ELSE "0"
  ELSE IF d = 1 \/ phys = "Thermal" THEN "0" ELSE CASE i = 1 -> X0(n)[2] [] i = 2 -> RNeg(X0(n)[1]) [] OTHER -> "0"]
Some(k) == [g \in 1..(NPts(d, mesh) * NdM) |-> RNum(((g * 7 + k * 3) % 11) - 5)]
Z == [n \in 1..NPts(d, mesh) |-> RDiv(((n * 3) % 4) + 1, 4)]
Res(u) == Residual(Mo, u, Z, Mo.X, Mo.X, Mo.X)
Zero == VZero(NPts(d, mesh) * NdM)
Total(r, i) == RSum([n \in 1..NPts(d, mesh) |-> r[((n - 1) * NdM) + i]])

Init == /\ phys \in Physics /\ d \in 1..3 /\ mesh \in NCells(d) /\ pen \in (IF Depth = 0 THEN {"SIMP"} ELSE {"SIMP", "RAMP", "Heaviside"})
        /\ load \in {"none", "Uniform"} \cup (IF phys = "Thermal" THEN {} ELSE {"Uniform Pressure"}) /\ mode = 0 /\ done = FALSE
Next == ~done /\ mode' \in 1..(NdM + 1) /\ done' = TRUE /\ UNCHANGED <<phys, d, mesh, pen, load>>
Spec == Init /\ [][Next]_vars

Whole == ModelOk(Ev)
\* a motion without strain meets no resistance
RigidFree == done => VEq(Res(Rigid(mode)), Res(Zero))
\* what the cells exert on each other cancels: the sum over all nodes is the sum of the loads, whatever the state
Balanced == done => \A i \in 1..NdM : REq(Total(Res(Some(mode)), i), Total(Res(Zero), i))
\* a pressure on a closed surface has no resultant; a uniform load has the measure of the surface times its value
Measure == RSum([k \in 1..Len(Closed) |-> LET q == Closed[k] IN RDiv(Length(AreaVec(d, Corners(Mo, q[1] + 1, Mo.X), q[2] + 1)), IF d = 3 THEN 2 ELSE 1)])
Resultant == done => CASE load = "none" -> VEq(Res(Zero), Zero)
  [] load = "Uniform Pressure" -> \A i \in 1..NdM : RNear(Total(Res(Zero), i), "0", "1", "1e-30")
  [] OTHER -> \A i \in 1..NdM : LET s == IF phys = "Thermal" THEN "2" ELSE "-2" IN RNear(Total(Res(Zero), i), IF i = 1 THEN RMul(s, Measure) ELSE "0", "1", "1e-30")
\* linear in the state: the tangent does not depend on where it is taken, and is symmetric where an energy exists
Work(a, b) == RDot(a, VSub(Res(b), Res(Zero)))
Linear == done => VEq(VSub(Res(VAdd(Some(mode), Rigid(1))), Res(Rigid(1))), VSub(Res(Some(mode)), Res(Zero)))
Symmetric == (done /\ phys \in {"Mechanics", "Thermal"}) => REq(Work(Some(mode), Some(mode + 4)), Work(Some(mode + 4), Some(mode)))
Passive == (done /\ phys \in {"Mechanics", "Thermal"}) => RLeq("0", Work(Some(mode), Some(mode)))
\* the numbering of the nodes does not matter
Turn == [n \in 1..NPts(d, mesh) |-> (n % NPts(d, mesh)) + 1]          \* node n becomes node Turn[n]
Back == [n \in 1..NPts(d, mesh) |-> CHOOSE k \in 1..NPts(d, mesh) : Turn[k] = n]
Turned == [Mo EXCEPT !.X = [n \in 1..NPts(d, mesh) |-> Mo.X[Back[n]]], !.E = [c \in 1..mesh |-> [n \in 1..(d + 1) |-> Turn[Mo.E[c][n]]]]]
Carry(v) == [g \in 1..Len(v) |-> v[((Back[Nod(g)] - 1) * NdM) + Dof(g)]]
Renumbered == done => LET t == Turned  z == [n \in 1..NPts(d, mesh) |-> Z[Back[n]]] IN
  VEq(Residual(t, Carry(Some(mode)), z, t.X, t.X, t.X), Carry(Res(Some(mode))))

\* scenarios for the code: hexfloat-free decimals
Dec(v) == [k \in 1..Len(v) |-> RNum(v[k])]
Emit == done => PrintT("SCEN " \o ToJson(<<Ev, [op |-> "res", M |-> "m", u |-> Some(mode), du |-> Rigid(mode), z |-> Z, dz |-> [n \in 1..NPts(d, mesh) |-> "1"],
                                                dx |-> [n \in 1..NPts(d, mesh) |-> [i \in 1..d |-> IF (n + i + mode) % 2 = 0 THEN "1" ELSE "-0.5"]]]>>))
=============================================================================
