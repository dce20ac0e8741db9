--------------------------------- MODULE FE ---------------------------------
(* Finite element models on meshes of linear simplices: the input that        *)
(* defines one (domains, materials, penalty, loads, supports), its residual,  *)
(* and the derivatives of the residual in state, design and node positions.   *)
(* A model is [phys, d, nd, X, E, p, doms, ...]; cells and nodes are counted   *)
(* from one; X, u, z carry derivatives in directions 1 (u), 2 (z) and 3 (X).   *)
EXTENDS Dual, TLC, FiniteSets
K == INSTANCE Kinem
M == INSTANCE Material
G == INSTANCE Design
L == INSTANCE Elastic
V == INSTANCE Invariants

Upd(f, k, x) == (k :> x) @@ f
Has(p, k, t) == k \in DOMAIN p /\ p[k].t = t
Sub(p, k) == IF Has(p, k, "l") THEN p[k].l ELSE <<>>
\* mixed forms: displacements and pressure (and temperature), stabilised by the part of the pressure gradient that a projection to the nodes leaves out
Mixed(phys) == phys \in {"StabilizedMechanics", "StabilizedThermomechanics"}
NDof(phys, d) == CASE phys = "Mechanics" -> d [] phys = "Thermal" -> 1 [] phys = "StabilizedThermomechanics" -> d + 2 [] OTHER -> d + 1
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})

(* ---- geometry of one cell: xs are its d + 1 corners ---- *)
Diff(a, b) == VSub(a, b)
Cross(a, b) == <<RSub(RMul(a[2], b[3]), RMul(a[3], b[2])), RSub(RMul(a[3], b[1]), RMul(a[1], b[3])), RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))>>
Edges(d, xs) == Now([k \in 1..d |-> Diff(xs[k + 1], xs[1])])
Fact(d) == CASE d = 1 -> "1" [] d = 2 -> "2" [] OTHER -> "6"
Grads(d, xs) ==
  LET e == Edges(d, xs)
      g == CASE d = 1 -> <<<<RDiv("1", e[1][1])>>>>
             [] d = 2 -> LET D == RSub(RMul(e[1][1], e[2][2]), RMul(e[1][2], e[2][1])) IN
                         <<<<RDiv(e[2][2], D), RNeg(RDiv(e[2][1], D))>>, <<RNeg(RDiv(e[1][2], D)), RDiv(e[1][1], D)>>>>
             [] OTHER -> LET D == RDot(e[1], Cross(e[2], e[3])) IN
                         <<VScale(RDiv("1", D), Cross(e[2], e[3])), VScale(RDiv("1", D), Cross(e[3], e[1])), VScale(RDiv("1", D), Cross(e[1], e[2]))>>
  IN Now([n \in 1..(d + 1) |-> IF n = 1 THEN Now([i \in 1..d |-> RNeg(RSum([k \in 1..d |-> g[k][i]]))]) ELSE g[n - 1]])
Volume(d, xs) == LET e == Edges(d, xs) IN
  RDiv(RAbs(CASE d = 1 -> e[1][1] [] d = 2 -> RSub(RMul(e[1][1], e[2][2]), RMul(e[1][2], e[2][1])) [] OTHER -> RDot(e[1], Cross(e[2], e[3]))), Fact(d))
Centre(d, xs) == [i \in 1..d |-> RDiv(RSum([n \in 1..(d + 1) |-> xs[n][i]]), d + 1)]
\* the corners of local side s, in an order that turns the normal outwards on a positively oriented cell
SideNodes(d, s) == CASE d = 1 -> <<s>>
  [] d = 2 -> (CASE s = 1 -> <<1, 2>> [] s = 2 -> <<2, 3>> [] OTHER -> <<3, 1>>)
  [] OTHER -> (CASE s = 1 -> <<1, 3, 2>> [] s = 2 -> <<1, 2, 4>> [] s = 3 -> <<2, 3, 4>> [] OTHER -> <<3, 1, 4>>)
\* outward normal with the length of the side's measure times (d - 1)!
AreaVec(d, xs, s) == LET n == SideNodes(d, s) IN
  CASE d = 1 -> <<IF s = 1 THEN "-1" ELSE "1">>
    [] d = 2 -> LET t == Diff(xs[n[2]], xs[n[1]]) IN <<t[2], RNeg(t[1])>>
    [] OTHER -> Cross(Diff(xs[n[2]], xs[n[1]]), Diff(xs[n[3]], xs[n[1]]))
Length(v) == IF Len(v) = 1 THEN RAbs(v[1]) ELSE RSqrt(RDot(v, v))
\* share of a side's measure that a corner carries: measure / d
Share(d, a) == RDiv(a, CASE d = 1 -> "1" [] d = 2 -> "2" [] OTHER -> "6")

(* ---- from the input to a model ---- *)
Domains(p) == Sub(Sub(p, "Spatial Model"), "Domains")
DomainOk(e, q) == /\ q.t = "l" /\ Has(q.l, "Element Block", "s") /\ Has(q.l, "Material Model", "s") /\ q.l["Element Block"].s \in DOMAIN e.blocks
SpaceOk(e) == /\ Has(e.params, "Spatial Model", "l") /\ Has(Sub(e.params, "Spatial Model"), "Domains", "l")
              /\ \A n \in DOMAIN Domains(e.params) : DomainOk(e, Domains(e.params)[n])
MatOf(phys, d, name, p) ==
  CASE phys \in {"Mechanics", "StabilizedMechanics"} -> L!Factory("elastic", d, name, p, "none")
    [] phys = "StabilizedThermomechanics" -> L!Factory("thermo", d, name, p, "none")
    [] phys = "Electromechanics" -> L!Factory("electro", d, name, p, "none")
    [] phys = "Thermomechanics" -> L!Factory("tm", d, name, p, "none")
    [] OTHER -> LET f == M!Factory("Thermal Conduction", d, name, p) IN [w |-> f.w, m |-> f.mo]
\* the kind of equation: equilibrium (Elliptic), with heat that is stored (Parabolic), or with inertia (Hyperbolic)
PdeOf(e) == IF "kind" \in DOMAIN e THEN e.kind ELSE "Elliptic"
MassOf0(e, name) == M!Factory("Thermal Mass", e.dim, name, e.params)
MatsOk(e) == \A n \in DOMAIN Domains(e.params) : LET mat == Domains(e.params)[n].l["Material Model"].s IN
  MatOf(e.phys, e.dim, mat, e.params).w = "model" /\ (PdeOf(e) = "Parabolic" => MassOf0(e, mat).w = "model")
PenOf(p) == Sub(p, "Penalty Function")
PenKind(p) == LET q == PenOf(p) IN IF ~Has(q, "Type", "s") THEN "simp"
  ELSE CASE q["Type"].s = "SIMP" -> "simp" [] q["Type"].s = "RAMP" -> "ramp" [] q["Type"].s = "Heaviside" -> "heav" [] q["Type"].s = "NoPenalty" -> "none" [] OTHER -> "unknown"
PenModel(p) == G!FromList(PenKind(p), PenOf(p))
PenOk(e) == LET q == Sub(e.params, PdeOf(e)) IN
  IF e.phys = "Thermal" \/ PdeOf(e) # "Elliptic" THEN Has(PenOf(q), "Type", "s") /\ PenKind(q) \in {"simp", "ramp", "heav"} ELSE PenKind(q) # "unknown"
\* loads on sides: lists of conditions, where they act (first degree of freedom, how many) and with which sign they enter
LoadLists(phys, d) ==
  CASE phys = "Mechanics" -> {[list |-> "Natural Boundary Conditions", off |-> 0, n |-> d, sign |-> "-1"]}
    [] phys = "Thermal" -> {[list |-> "Natural Boundary Conditions", off |-> 0, n |-> 1, sign |-> "1"]}
    [] phys = "StabilizedMechanics" -> {[list |-> "Mechanical Natural Boundary Conditions", off |-> 0, n |-> d, sign |-> "-1"]}
    [] phys = "StabilizedThermomechanics" -> {[list |-> "Mechanical Natural Boundary Conditions", off |-> 0, n |-> d, sign |-> "-1"],
                                    [list |-> "Thermal Natural Boundary Conditions", off |-> d + 1, n |-> 1, sign |-> "-1"]}
    [] phys = "Thermomechanics" -> {[list |-> "Mechanical Natural Boundary Conditions", off |-> 0, n |-> d, sign |-> "-1"],
                                    [list |-> "Thermal Natural Boundary Conditions", off |-> d, n |-> 1, sign |-> "-1"]}
    [] OTHER -> {[list |-> "Mechanical Natural Boundary Conditions", off |-> 0, n |-> d, sign |-> "-1"],
                 [list |-> "Electrical Natural Boundary Conditions", off |-> d, n |-> 1, sign |-> "-1"]}
Axis(c) == CASE c \in {"x", "X"} -> 1 [] c \in {"y", "Y"} -> 2 [] c \in {"z", "Z"} -> 3 [] OTHER -> 9
LoadOk(b, n) ==
  /\ b.t = "l" /\ Has(b.l, "Type", "s") /\ Has(b.l, "Sides", "s")
  /\ LET q == b.l  one == Has(q, "Value", "d") \/ Has(q, "Value", "s")  all == Has(q, "Values", "a") \/ Has(q, "Values", "as") IN
     CASE q["Type"].s = "Uniform" -> one # all
       [] q["Type"].s = "Uniform Pressure" -> Has(q, "Value", "d")
       [] q["Type"].s = "Uniform Component" -> Has(q, "Value", "d") /\ Has(q, "Component", "s") /\ Axis(q["Component"].s) <= n
       [] OTHER -> FALSE
BodyOk(b, nd) == b.t = "l" /\ Has(b.l, "Function", "s")
LoadsOk(e) == /\ \A c \in LoadLists(e.phys, e.dim) : LET q == Sub(e.params, c.list) IN \A n \in DOMAIN q : LoadOk(q[n], c.n)
              /\ PdeOf(e) = "Parabolic" \/ LET q == Sub(e.params, "Body Loads") IN \A n \in DOMAIN q : BodyOk(q[n], NDof(e.phys, e.dim))
ModelOk(e) == SpaceOk(e) /\ PenOk(e) /\ MatsOk(e) /\ LoadsOk(e)
ModelOf(e) ==
  [phys |-> e.phys, kind |-> PdeOf(e), vel |-> <<>>, acc |-> <<>>, time |-> "0", d |-> e.dim, nd |-> NDof(e.phys, e.dim), X |-> e.X, E |-> [c \in 1..Len(e.E) |-> [n \in 1..Len(e.E[c]) |-> e.E[c][n] + 1]],
   p |-> e.params, exprs |-> e.exprs, sides |-> e.sides, nsets |-> e.nsets, pen |-> PenModel(Sub(e.params, PdeOf(e))), crit |-> <<>>, prob |-> <<>>,
   doms |-> LET D == Domains(e.params) IN [n \in DOMAIN D |->
     LET b == e.blocks[D[n].l["Element Block"].s] IN
     [cells |-> [i \in 1..Len(b) |-> b[i] + 1], mat |-> MatOf(e.phys, e.dim, D[n].l["Material Model"].s, e.params).m,
      mass |-> IF PdeOf(e) = "Parabolic" THEN MassOf0(e, D[n].l["Material Model"].s).mo ELSE <<>>, name |-> D[n].l["Material Model"].s]]]
NN(m) == Len(m.X)

(* ---- one cell ---- *)
Local(m, c, U) == LET ns == m.E[c]  nd == m.nd IN Now([k \in 1..((m.d + 1) * nd) |-> LET n == ((k - 1) \div nd) + 1 IN U[((ns[n] - 1) * nd) + (k - ((n - 1) * nd))]])
Corners(m, c, X) == [n \in 1..(m.d + 1) |-> X[m.E[c][n]]]
CellMean(m, c, z) == G!Mean([n \in 1..(m.d + 1) |-> z[m.E[c][n]]])
\* stress-like and flux-like responses of a cell, before penalisation; T is the mean of the last degree of freedom
Column(m) == IF m.kind = "Elliptic" /\ Has(m.p, "Cell Problem Forcing", "l") THEN m.p["Cell Problem Forcing"].l["Column Index"].i + 1 ELSE 0
\* a mixed form: the stress without its pressure, the pressure, and what the flux of volume and of heat depend on
Scaling(m, mat) == IF m.phys = "StabilizedMechanics" THEN mat.ps ELSE mat.s[5]
Mean(m, uc, i) == G!Mean([n \in 1..(m.d + 1) |-> uc[((n - 1) * m.nd) + i]])
MixedResponse(m, mat, uc, B) ==
  LET d == m.d  nd == m.nd  ps == Scaling(m, mat)  hot == m.phys # "StabilizedMechanics"
      e == K!Strain(d, uc, nd, 0, B)
      et == IF hot THEN L!TeStrain(mat, Mean(m, uc, d + 2)) ELSE VZero(K!NV(d))
      p == RMul(ps, Mean(m, uc, d + 1))
      dev == L!Deviator(d, L!Stress(mat.C, VSub(e, et)))
  IN [e |-> e, g |-> K!Grad(d, uc, nd, d, B), dev |-> dev, p |-> p, s |-> Now([k \in 1..K!NV(d) |-> IF k <= d THEN RAdd(dev[k], p) ELSE dev[k]]),
      v |-> L!VolFlux(d, mat.C, ps, e, et, p), ps |-> ps, q |-> IF hot THEN VScale(RMul(mat.s[4], mat.s[4]), MVec(mat.k, K!Grad(d, uc, nd, d + 1, B))) ELSE <<>>]
Response(m, mat, uc, B) ==
  IF Mixed(m.phys) THEN MixedResponse(m, mat, uc, B) ELSE
  LET d == m.d  nd == m.nd
      e == IF m.phys = "Thermal" THEN <<>> ELSE K!Strain(d, uc, nd, 0, B)
      g == IF m.phys = "Mechanics" THEN <<>> ELSE K!Grad(d, uc, nd, nd - 1, B)
      T == G!Mean([n \in 1..(d + 1) |-> uc[n * nd]])
  IN CASE m.phys = "Mechanics" -> [s |-> LET s == L!LinStress(mat, e) IN IF Column(m) = 0 THEN s ELSE VSub(s, [k \in 1..Len(s) |-> mat.C[k][Column(m)]]), q |-> <<>>, e |-> e, g |-> g]
       [] m.phys = "Thermal" -> [s |-> <<>>, q |-> VScale("-1", M!FluxOf(mat, g, T)), e |-> e, g |-> g]
       [] m.phys = "Thermomechanics" -> [s |-> L!TmStress(mat, e, T), q |-> L!TmFlux(mat, g, T), e |-> e, g |-> g]
       [] OTHER -> LET f == VScale("-1", g) IN [s |-> L!EmStress(mat, e, f), q |-> L!EmDisp(mat, e, f), e |-> e, g |-> f]
\* the response of a cell that also moves: a material may damp the rate of its strain
Damps(mat) == ~RIsZero(mat.ra) \/ ~RIsZero(mat.rb)
StrainRate(m, c, B) == K!Strain(m.d, Local(m, c, m.vel), m.nd, 0, B)
Moving(m, D, c, U, B) == LET r == Response(m, D.mat, Local(m, c, U), B) IN
  IF m.kind # "Hyperbolic" THEN r ELSE [r EXCEPT !.s = VAdd(@, VScale(D.mat.rb, L!Stress(D.mat.C, StrainRate(m, c, B))))]
MeanOf(m, c, U, i) == LET u == Local(m, c, U) IN G!Mean([n \in 1..(m.d + 1) |-> u[((n - 1) * m.nd) + i]])
\* what a cell stores, per unit of volume, for a degree of freedom: heat or momentum
Storing(m, D, c, U, i) ==
  CASE m.kind = "Parabolic" -> IF i < m.nd THEN "0" ELSE M!ContentOf(D.mass, MeanOf(m, c, m.vel, m.nd), MeanOf(m, c, U, m.nd))
    [] m.kind = "Hyperbolic" -> RMul(D.mat.rho, RAdd(MeanOf(m, c, m.acc, i), RMul(D.mat.ra, MeanOf(m, c, m.vel, i))))
    [] OTHER -> "0"
\* the projected gradient of the pressure in a cell, from its values at the nodes
Projected(m, c) == Now([i \in 1..m.d |-> G!Mean([n \in 1..(m.d + 1) |-> m.vel[((m.E[c][n] - 1) * m.d) + i]])])
MixedForce(m, D, c, U, z, X) ==
  LET d == m.d  nd == m.nd  xs == Corners(m, c, X)  B == Grads(d, xs)  vol == Volume(d, xs)  r == MixedResponse(m, D.mat, Local(m, c, U), B)
      f == RMul(G!Pen(m.pen, CellMean(m, c, z)), vol)
      stab == L!Stabil(d, D.mat.C, r.ps, vol, r.g, Projected(m, c))
  IN Now([k \in 1..((d + 1) * nd) |-> LET n == ((k - 1) \div nd) + 1  i == k - ((n - 1) * nd) IN
       IF i <= d THEN RAdd(K!StressForce(d, r.dev, B, f, n, i), K!PressForce(r.p, B, f, n, i))
       ELSE IF i = d + 1 THEN RSub(RMul(RDiv(f, d + 1), r.v), K!FluxForce(d, stab, B, f, n)) ELSE K!FluxForce(d, r.q, B, f, n)])
CellForce(m, D, c, U, z, X) ==
  IF Mixed(m.phys) THEN MixedForce(m, D, c, U, z, X) ELSE
  LET d == m.d  nd == m.nd  xs == Corners(m, c, X)  B == Grads(d, xs)  r == Moving(m, D, c, U, B)
      f == RMul(G!Pen(m.pen, CellMean(m, c, z)), Volume(d, xs))
      st == Now([i \in 1..nd |-> RMul(RDiv(f, d + 1), Storing(m, D, c, U, i))])
  IN Now([k \in 1..((d + 1) * nd) |-> LET n == ((k - 1) \div nd) + 1  i == k - ((n - 1) * nd) IN
       RAdd(st[i], IF i <= d /\ m.phys # "Thermal" THEN K!StressForce(d, r.s, B, f, n, i) ELSE K!FluxForce(d, r.q, B, f, n))])

\* fields of a cell that can be asked for as output
Outputs(m) ==
  CASE m.kind = "Parabolic" -> IF m.phys = "Thermal" THEN {} ELSE {"strain", "stress"}
    [] m.kind = "Hyperbolic" -> {"strain", "stress"} \cup (IF \E n \in DOMAIN m.doms : Damps(m.doms[n].mat) THEN {"velgrad"} ELSE {})
    [] m.phys = "StabilizedMechanics" -> {"pressure", "deviatoric stress"} [] m.phys = "StabilizedThermomechanics" -> {}
    [] m.phys = "Mechanics" -> {"strain", "stress", "Vonmises"} [] m.phys = "Thermal" -> {"tgrad", "flux"}
    [] m.phys = "Thermomechanics" -> {"strain", "tgrad", "stress", "flux"} [] OTHER -> {"strain", "efield", "stress", "edisp"}
Plots(m) == Has(Sub(m.p, m.kind), "Plottable", "as")
Asked(m) == LET q == Sub(m.p, m.kind) IN IF Plots(m) THEN {q["Plottable"].as[i] : i \in 1..Len(q["Plottable"].as)} \cap Outputs(m) ELSE {}
Field(m, D, c, U, z, name) ==
  LET B == Grads(m.d, Corners(m, c, m.X))  r == Moving(m, D, c, U, B)  f == G!Pen(m.pen, CellMean(m, c, z)) IN
  CASE name = "strain" -> r.e
    [] name = "pressure" -> <<RMul(f, r.p)>>
    [] name = "deviatoric stress" -> VScale(f, r.dev)
    [] name = "velgrad" -> StrainRate(m, c, B)
    [] name = "stress" -> VScale(f, r.s)
    [] name = "Vonmises" -> <<V!Mises(m.d, VScale(f, r.s))>>
    [] name \in {"tgrad", "efield"} -> r.g
    [] name = "edisp" \/ m.phys = "Thermomechanics" -> VScale(f, r.q)
    [] OTHER -> VScale(RNeg(f), r.q)
\* o: the rows of a field, one per cell.  A cell of several domains may show any of them
FieldIs(m, o, u, z, name) == Len(o) = Len(m.E) /\ \A c \in 1..Len(m.E) :
  LET D == {n \in DOMAIN m.doms : (name = "velgrad" => Damps(m.doms[n].mat)) /\ \E j \in 1..Len(m.doms[n].cells) : m.doms[n].cells[j] = c}
      same(x, y) == VClose(x, y) \/ (name = "Vonmises" /\ m.d = 1 /\ VClose(x, VScale("-1", y)))
  IN IF D = {} THEN \A i \in 1..Len(o[c]) : RIsZero(o[c][i]) ELSE \E n \in D : same(o[c], Field(m, m.doms[n], c, u, z, name))
FieldOk(m, e, name) == FieldIs(m, e.out.map[name], e.u, e.z, name)

(* ---- loads ---- *)
\* a function of position: [c0, cx, cy, cz, cxx]
Poly(c, x) == RAdd(RAdd(c[1], RSum([i \in 1..Len(x) |-> RMul(c[i + 1], x[i])])), RMul(c[5], RMul(x[1], x[1])))
BodyOf(m) == LET q == IF m.kind = "Parabolic" THEN <<>> ELSE Sub(m.p, "Body Loads") IN {[dof |-> IF Has(q[n].l, "Index", "i") THEN q[n].l["Index"].i + 1 ELSE 1, f |-> m.exprs[q[n].l["Function"].s], n |-> n] : n \in DOMAIN q}
\* what one cell's body load adds to each of its corners
BodyForce(m, b, c, z, X) == LET xs == Corners(m, c, X) IN RDiv(RMul(RMul(CellMean(m, c, z), Poly(b.f, Centre(m.d, xs))), Volume(m.d, xs)), m.d + 1)
\* the sides of cells that a side set means: every cell a listed side belongs to, once per listing
SideOwners(m, set) == SetSeq({<<k, c, s>> \in (1..Len(m.sides[set])) \X (1..Len(m.E)) \X (1..(m.d + 1)) :
  LET r == m.sides[set][k]  a == SideNodes(m.d, r[2] + 1)  b == SideNodes(m.d, s) IN
  {m.E[c][b[i]] : i \in 1..Len(b)} = {m.E[r[1] + 1][a[i]] : i \in 1..Len(a)}})
Now0(m, t) == Poly(m.exprs[t], <<m.time>>)
Number(m, q, k) == IF Has(q, k, "d") THEN q[k].v ELSE Now0(m, q[k].s)
\* the load of a condition on one side of a cell: per component, for each corner of the side
\* (Xn are the positions the normal of a pressure is taken from)
SideLoad(m, q, n, c, s, X, Xn) ==
  LET a == Share(m.d, Length(AreaVec(m.d, Corners(m, c, X), s)))
      nv == AreaVec(m.d, Corners(m, c, Xn), s)
  IN Now([i \in 1..n |->
       CASE q["Type"].s = "Uniform" -> RMul(a, IF Has(q, "Values", "a") THEN q["Values"].a[i] ELSE IF Has(q, "Values", "as") THEN Now0(m, q["Values"].as[i])
                                               ELSE IF i = (IF Has(q, "Index", "i") THEN q["Index"].i + 1 ELSE 1) THEN Number(m, q, "Value") ELSE "0")
         [] q["Type"].s = "Uniform Pressure" -> RMul(a, RMul(q["Value"].v, RDiv(nv[i], Length(nv))))
         [] OTHER -> IF i = Axis(q["Component"].s) THEN RMul(a, q["Value"].v) ELSE "0"])
Dofs(m) == NN(m) * m.nd
DomCells(m) == SetSeq({<<n, j>> \in (DOMAIN m.doms) \X (1..64) : j <= Len(m.doms[n].cells)})
LoadsOf(m) == SetSeq({<<c, n>> \in LoadLists(m.phys, m.d) \X UNION {DOMAIN Sub(m.p, b.list) : b \in LoadLists(m.phys, m.d)} : n \in DOMAIN Sub(m.p, c.list)})
\* every side set that a load names exists
SetsOk(m) == \A i \in 1..Len(LoadsOf(m)) : LET l == LoadsOf(m)[i] IN Sub(m.p, l[1].list)[l[2]].l["Sides"].s \in DOMAIN m.sides
Residual(m, U, z, X, Xb, Xn) ==
  LET dc == DomCells(m)
      cf == Now([i \in 1..Len(dc) |-> LET D == m.doms[dc[i][1]] IN CellForce(m, D, D.cells[dc[i][2]], U, z, X)])
      bs == SetSeq(BodyOf(m))
      bf == Now([i \in 1..Len(dc) |-> Now([b \in 1..Len(bs) |-> BodyForce(m, bs[b], m.doms[dc[i][1]].cells[dc[i][2]], z, Xb)])])
      ls == LoadsOf(m)
      so == Now([i \in 1..Len(ls) |-> SideOwners(m, Sub(m.p, ls[i][1].list)[ls[i][2]].l["Sides"].s)])
      sl == Now([i \in 1..Len(ls) |-> Now([k \in 1..Len(so[i]) |-> SideLoad(m, Sub(m.p, ls[i][1].list)[ls[i][2]].l, ls[i][1].n, so[i][k][2], so[i][k][3], X, Xn)])])
      fromCells(nod, i) == RSum([q \in 1..Len(dc) |-> LET c == m.doms[dc[q][1]].cells[dc[q][2]]  v == {n \in 1..(m.d + 1) : m.E[c][n] = nod} IN
         IF v = {} THEN "0" ELSE LET n == CHOOSE x \in v : TRUE IN
           RSub(cf[q][((n - 1) * m.nd) + i], RSum([b \in 1..Len(bs) |-> IF bs[b].dof = i THEN bf[q][b] ELSE "0"]))])
      fromSides(nod, i) == RSum([l \in 1..Len(ls) |-> LET o == ls[l][1].off IN IF i <= o \/ i > o + ls[l][1].n THEN "0"
         ELSE RMul(ls[l][1].sign, RSum([k \in 1..Len(so[l]) |-> LET c == so[l][k][2]  sn == SideNodes(m.d, so[l][k][3]) IN
                IF \E a \in 1..Len(sn) : m.E[c][sn[a]] = nod THEN sl[l][k][i - o] ELSE "0"]))])
  IN Now([g \in 1..Dofs(m) |-> LET nod == ((g - 1) \div m.nd) + 1  i == g - ((nod - 1) * m.nd) IN RAdd(fromCells(nod, i), fromSides(nod, i))])

(* ------------------------------ judging ------------------------------------ *)
AlongOf(x, dx, i, n) == Now([k \in 1..Len(x) |-> RAdd(x[k], RMul(dx[k], RVar("0", i, n)))])
Along(x, dx, i) == AlongOf(x, dx, i, 3)
AlongX(X, dX, i) == Now([n \in 1..Len(X) |-> Along(X[n], dX[n], i)])
Ders(v, i) == [k \in 1..Len(v) |-> RDer(v[k], i)]
Vals(v) == [k \in 1..Len(v) |-> RVal(v[k])]
\* a derivative in z is not asked for where the penalty has none
Smooth(m, z) == \A i \in 1..Len(DomCells(m)) : LET q == DomCells(m)[i] IN ~G!Kink(m.pen, CellMean(m, m.doms[q[1]].cells[q[2]], z))
JudgeRes(m, e) ==
  LET U == Along(e.u, e.du, 1)  z == Along(e.z, e.dz, 2)  X == AlongX(m.X, e.dx, 3)
      r == Residual(m, U, z, X, X, X)
      w == Residual(m, U, z, X, m.X, m.X)            \* known finding: loads at the positions of the mesh
  IN IF ~VClose(e.out.r, Vals(r)) THEN "the residual is wrong"
     ELSE IF ~VClose(e.out.u, Ders(r, 1)) THEN "the derivative of the residual in the state is wrong"
     ELSE IF ~VClose(e.out.uT, Ders(r, 1)) THEN "the transposed derivative of the residual in the state is wrong"
     ELSE IF Smooth(m, e.z) /\ ~VClose(e.out.z, Ders(r, 2)) THEN "the derivative of the residual in the design is wrong"
     ELSE IF DOMAIN e.out.map # Asked(m) THEN "the output is not what was asked for"
     ELSE IF \E n \in Asked(m) : ~FieldOk(m, e, n) THEN "a field was output with wrong values"
     ELSE IF ~e.out.same THEN "the evaluation changed its arguments"
     ELSE IF VClose(e.out.x, Ders(r, 3)) THEN "ok" ELSE IF VClose(e.out.x, Ders(w, 3)) THEN "known" ELSE "the derivative of the residual in the positions is wrong"
JudgeFE(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      chk(c, w) == IF ~e.exc /\ c THEN ok(s) ELSE bad(w)
  IN
  IF e.op # "model" /\ e.M \notin DOMAIN s THEN ok(s)
  ELSE
  CASE e.op = "model" -> IF ModelOk(e) THEN (IF e.exc THEN bad("a complete model was rejected") ELSE ok(Upd(s, e.M, ModelOf(e))))
                         ELSE IF e.exc THEN ok(s) ELSE bad("an incomplete or contradictory model was accepted")
  [] e.op = "res" -> LET m == s[e.M] IN
       IF ~SetsOk(m) THEN (IF e.exc THEN ok(s) ELSE bad("a load on a side set that does not exist was accepted"))
       ELSE IF e.exc THEN bad("the residual failed")
       ELSE LET j == JudgeRes(m, e) IN IF j = "ok" THEN ok(s) ELSE IF j = "known" THEN [v |-> "known", why |-> "F23", st |-> s] ELSE bad(j)
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
