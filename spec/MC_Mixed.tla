------------------------------ MODULE MC_Mixed ------------------------------
(* Mixed forms on one and two cells: laws of the stabilised residual and of   *)
(* the projection of the pressure gradient.                                   *)
EXTENDS MC_FE, Mixed
VARIABLE scale                   \* the pressure scaling
mvars == <<vars, scale>>

MList == IF phys = "StabilizedMechanics"
         THEN "Isotropic Linear Elastic" :> Lst(("Youngs Modulus" :> D("2.5")) @@ ("Poissons Ratio" :> D("0.25")) @@ ("Pressure Scaling" :> D(scale)))
         ELSE "Isotropic Linear Thermoelastic" :> Lst(("Youngs Modulus" :> D("2.5")) @@ ("Poissons Ratio" :> D("0.25")) @@ ("Thermal Expansion Coefficient" :> D("0.5"))
                 @@ ("Thermal Conductivity Coefficient" :> D("3.0")) @@ ("Reference Temperature" :> D("0.0")) @@ ("Pressure Scaling" :> D(scale)))
MPen == "Penalty Function" :> Lst(("Type" :> S(pen)) @@ ("Minimum Value" :> D("0.125")))
MEv == [Ev EXCEPT !.params = ("Material Models" :> Lst(("m" :> Lst(MList)) @@ ("Pressure Scaling" :> D(scale)))) @@ ("State Gradient Projection" :> Lst(MPen)) @@ @]
Mm == ModelOf(MEv)
NP == NPts(d, mesh)
\* a field with the gradient <<1, 2, 3>>, one that is anything, and its projected gradients
Slope(i) == RNum(i)
Lin(n) == RSum([i \in 1..d |-> RMul(Slope(i), X0(n)[i])])
Even == [g \in 1..(NP * d) |-> RMul(scale, Slope(g - (((g - 1) \div d) * d)))]
Nodal(k) == [g \in 1..(NP * d) |-> RNum(((g * 5 + k) % 7) - 3)]
None == VZero(NP * d)
MRes(u, P) == Residual(With(Mm, P), u, Z, Mm.X, Mm.X, Mm.X)
MRigid(k) == [g \in 1..(NP * NdM) |-> LET n == Nod(g)  i == Dof(g) IN
  IF k <= d THEN IF i = k THEN "1" ELSE "0" ELSE CASE i = 1 -> X0(n)[2] [] i = 2 -> RNeg(X0(n)[1]) [] OTHER -> "0"]
Near(a, b) == \A k \in 1..Len(a) : RNear(a[k], b[k], "1", "1e-30")

MInit == /\ phys \in {"StabilizedMechanics", "StabilizedThermomechanics"} /\ d \in 2..3 /\ mesh \in NCells(d) /\ pen \in (IF Depth = 0 THEN {"SIMP"} ELSE {"SIMP", "RAMP", "Heaviside"})
         /\ load \in {"none", "Uniform"} /\ scale \in {"1.0", "4.0"} /\ mode = 0 /\ done = FALSE
MNext == ~done /\ mode' \in 1..(d + 1) /\ done' = TRUE /\ UNCHANGED <<phys, d, mesh, pen, load, scale>>
MSpec == MInit /\ [][MNext]_mvars

WholeM == MixedOk(MEv)
\* a motion without strain meets no resistance, whatever the projected gradient
MRigidFree == done => VEq(MRes(MRigid(mode), Nodal(mode)), MRes(Zero, Nodal(mode)))
\* forces and heat balance; the stabilisation adds nothing to the volume as a whole
MBalanced == done => LET r == MRes(Some(mode), Nodal(mode))  z == MRes(Zero, None)  q == MRes(Some(mode), None) IN
  \A i \in 1..NdM : IF i = d + 1 THEN RNear(Total(r, i), Total(q, i), "1", "1e-30") ELSE REq(Total(r, i), Total(z, i))
MLinear == done => Near(VSub(MRes(VAdd(Some(mode), MRigid(1)), Nodal(2)), MRes(MRigid(1), None)), VSub(MRes(Some(mode), Nodal(2)), MRes(Zero, None)))
\* an energy exists: the form is symmetric in displacements and pressure
MWork(a, b) == RDot(a, VSub(MRes(b, None), MRes(Zero, None)))
MSymmetric == (done /\ phys = "StabilizedMechanics") => RNear(MWork(Some(mode), Some(mode + 4)), MWork(Some(mode + 4), Some(mode)), "1", "1e-28")
\* a pressure that varies linearly is not stabilised once its gradient is projected: what remains is the same at all corners of a cell
LinP == [g \in 1..(NP * NdM) |-> IF Dof(g) = d + 1 THEN Lin(Nod(g)) ELSE Some(mode)[g]]
Unstabilised == done => \A c \in 1..mesh : LET f == CellForce(With(Mm, Even), Mm.doms["D"], c, LinP, Z, Mm.X) IN
  \A n \in 2..(d + 1) : RNear(f[((n - 1) * NdM) + d + 1], f[d + 1], "1", "1e-30")
\* and its projection is exact; a uniform gradient has the weight of the body
Exact == done => VEq(ProResidual(Mm, Even, [n \in 1..NP |-> Lin(n)], Z, Mm.X), None)
Weighty == done => LET r == ProResidual(Mm, [g \in 1..(NP * d) |-> "1"], [n \in 1..NP |-> "0"], Z, Mm.X) IN
  \A i \in 1..d : REq(RSum([n \in 1..NP |-> r[((n - 1) * d) + i]]), RSum([c \in 1..mesh |-> RMul(G!Pen(ProPen(Mm.p), CellMean(Mm, c, Z)), Volume(d, Corners(Mm, c, Mm.X)))]))
\* in space, with the pressure that a uniform strain causes, the forces are those of the plain form and no volume is left over
Stretch(n, i) == RMul(RDiv(i + mode, 4), X0(n)[(i % d) + 1]) 
Stretched(n, i) == RAdd(Stretch(n, i), RMul(Slope(i), X0(n)[i]))
Tr == RSum([i \in 1..d |-> Slope(i)])
Plain == [Mm EXCEPT !.phys = "Mechanics", !.nd = d]
AsPlain == (done /\ d = 3 /\ phys = "StabilizedMechanics" /\ load = "none") =>
  LET p == RDiv(RMul(L!BulkMod(d, Mm.doms["D"].mat.C), Tr), scale)
      r == MRes([g \in 1..(NP * NdM) |-> IF Dof(g) = d + 1 THEN p ELSE Stretched(Nod(g), Dof(g))], None)
      q == Residual(Plain, [g \in 1..(NP * d) |-> LET n == ((g - 1) \div d) + 1 IN Stretched(n, g - ((n - 1) * d))], Z, Mm.X, Mm.X, Mm.X)
  IN \A n \in 1..NP : RNear(r[n * NdM], "0", "1", "1e-30") /\ \A i \in 1..d : RNear(r[((n - 1) * NdM) + i], q[((n - 1) * d) + i], "1", "1e-30")
\* the numbering of the nodes does not matter
MTurned == [Mm EXCEPT !.X = [n \in 1..NP |-> Mm.X[Back[n]]], !.E = [c \in 1..mesh |-> [n \in 1..(d + 1) |-> Turn[Mm.E[c][n]]]]]
CarryP(v) == [g \in 1..Len(v) |-> LET n == ((g - 1) \div d) + 1 IN v[((Back[n] - 1) * d) + (g - ((n - 1) * d))]]
MRenumbered == done => LET t == MTurned  z == [n \in 1..NP |-> Z[Back[n]]] IN
  /\ VEq(Residual(With(t, CarryP(Nodal(1))), Carry(Some(mode)), z, t.X, t.X, t.X), Carry(MRes(Some(mode), Nodal(1))))
  /\ VEq(ProResidual(t, CarryP(Nodal(1)), [n \in 1..NP |-> Lin(Back[n])], z, t.X), CarryP(ProResidual(Mm, Nodal(1), [n \in 1..NP |-> Lin(n)], Z, Mm.X)))

Dx == [n \in 1..NP |-> [i \in 1..d |-> IF (n + i + mode) % 2 = 0 THEN "1" ELSE "-0.5"]]
Ones == [n \in 1..NP |-> "1"]
MEmit == done => PrintT("SCEN " \o ToJson(<<MEv,
  [op |-> "mres", M |-> "m", u |-> Some(mode), du |-> MRigid(mode), n |-> Nodal(mode), dn |-> Nodal(1), z |-> Z, dz |-> Ones, dx |-> Dx, E |-> MEv.E],
  [op |-> "proj", M |-> "m", u |-> Nodal(mode), du |-> Nodal(1), n |-> [n \in 1..NP |-> Lin(n)], dn |-> Ones, z |-> Z, dz |-> Ones, dx |-> Dx, E |-> MEv.E]>>))
=============================================================================
