-------------------------------- MODULE Crit --------------------------------
(* Criteria of a finite element model: which inputs define one, its value     *)
(* for a state, a design and node positions, its derivatives, and the         *)
(* degrees of freedom that essential boundary conditions prescribe.           *)
EXTENDS FE

(* ---- essential boundary conditions ---- *)
Supports(m) == Sub(m.p, IF m.kind = "Hyperbolic" THEN "Displacement Boundary Conditions" ELSE "Essential Boundary Conditions")
SupportOk(b, nd) ==
  /\ b.t = "l" /\ Has(b.l, "Type", "s") /\ b.l["Type"].s \in {"Zero Value", "Fixed Value", "Time Dependent"} /\ Has(b.l, "Sides", "s")
  /\ Has(b.l, "Index", "i") => b.l["Index"].i >= 0 /\ b.l["Index"].i < nd
  /\ (Has(b.l, "Value", "d") \/ b.l["Type"].s = "Zero Value") # Has(b.l, "Function", "s")
SupportsOk(m) == \A n \in DOMAIN Supports(m) : SupportOk(Supports(m)[n], m.nd) /\ Supports(m)[n].l["Sides"].s \in DOMAIN m.nsets
IndexOf(b) == IF Has(b, "Index", "i") THEN b["Index"].i ELSE 0
\* scale: degree of freedom of a node (as text) -> factor the unknown is scaled by
PrescribedBy(m, b, time, scale) ==
  LET s == m.nsets[b["Sides"].s]  i == IndexOf(b)
      v == IF b["Type"].s = "Zero Value" THEN "0" ELSE IF Has(b, "Value", "d") THEN b["Value"].v ELSE Poly(m.exprs[b["Function"].s], <<time>>)
      k == ToString(i)
  IN [j \in 1..Len(s) |-> <<(s[j] * m.nd) + i, RDiv(v, IF k \in DOMAIN scale THEN scale[k] ELSE "1")>>]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Prescribed(m, time, scale) == LET n == SetSeq(DOMAIN Supports(m)) IN Cat([i \in 1..Len(n) |-> PrescribedBy(m, Supports(m)[n[i]].l, time, scale)])
\* the same conditions, in any order
SameConditions(dofs, vals, p) ==
  LET got(d, v) == Cardinality({i \in 1..Len(dofs) : dofs[i] = d /\ RClose(vals[i], v)})
      want(d, v) == Cardinality({i \in 1..Len(p) : p[i][1] = d /\ REq(RVal(p[i][2]), RVal(v))})
  IN Len(dofs) = Len(p) /\ Len(vals) = Len(p) /\ \A i \in 1..Len(p) : got(p[i][1], p[i][2]) = want(p[i][1], p[i][2])

(* ---- which criteria are defined ---- *)
Entry(m, n) == Sub(Sub(m.p, "Criteria"), n)
Word(q, k) == IF Has(q, k, "s") THEN q[k].s ELSE "none"
KindOf(m, n) == Word(Entry(m, n), "Type")
Fun(m, n) == Word(Entry(m, n), "Scalar Function Type")
ThreeKinds == {"simp", "ramp", "heav"}
HasPenType(q) == Has(PenOf(q), "Type", "s")
Volt(d) == CASE d = 1 -> 1 [] d = 2 -> 3 [] OTHER -> 6
Functions(phys) ==
  CASE phys = "Mechanics" -> {"Internal Elastic Energy", "Stress P-Norm", "Effective Energy", "Density Penalty"}
    [] phys = "Thermal" -> {"Internal Thermal Energy", "Flux P-Norm"}
    [] phys = "Thermomechanics" -> {"Internal Thermoelastic Energy", "Volume"}
    [] phys = "StabilizedMechanics" -> {"Internal Elastic Energy"}
    [] phys = "StabilizedThermomechanics" -> {}
    [] OTHER -> {"Internal Electroelastic Energy", "Stress P-Norm"}
PenaltyOk(m, q, f, lin) ==
  CASE lin -> HasPenType(q) /\ PenKind(q) \in ThreeKinds
    [] m.phys = "Mechanics" -> f = "Density Penalty" \/ PenKind(q) # "unknown"
    [] m.phys = "Thermal" -> HasPenType(q) /\ PenKind(q) \in ThreeKinds
    [] m.phys = "Thermomechanics" -> PenKind(q) \in ThreeKinds
    [] OTHER -> PenKind(q) # "unknown"
ScalarOk(m, q, lin) == LET f == Word(q, "Scalar Function Type") IN
  /\ f \in (IF lin THEN {"Volume"} ELSE Functions(m.phys))
  /\ PenaltyOk(m, q, f, lin)
  /\ f = "Stress P-Norm" => V!Complete(q)
  /\ f = "Flux P-Norm" => Has(q, "Exponent", "d")
  /\ f = "Effective Energy" => Has(q, "Assumed Strain", "a")
Properties == {"Mass", "CGx", "CGy", "CGz", "Ixx", "Iyy", "Izz", "Ixy", "Ixz", "Iyz"}
MassOk(q) == /\ Has(q, "Properties", "as") /\ Has(q, "Weights", "a") /\ Has(q, "Gold Values", "a")
             /\ LET n == q["Properties"].as IN /\ Len(q["Weights"].a) = Len(n) /\ Len(q["Gold Values"].a) = Len(n)
                                               /\ \A i, j \in 1..Len(n) : i # j => n[i] # n[j]
                                               /\ \A i \in 1..Len(n) : n[i] \in Properties
\* "made", "none" (no criterion of that type: not an error), or "bad" (an error)
RECURSIVE Made(_, _, _)
Made(m, n, lin) ==
  LET q == Entry(m, n)  yes(c) == IF c THEN "made" ELSE "bad"  part(k) == Made(m, k, lin) = "made"
      parts(k) == \A i \in 1..Len(q[k].as) : part(q[k].as[i])
  IN CASE KindOf(m, n) = "Scalar Function" -> yes(ScalarOk(m, q, lin))
       [] KindOf(m, n) = "Weighted Sum" -> yes(Has(q, "Functions", "as") /\ Has(q, "Weights", "a") /\ Len(q["Functions"].as) = Len(q["Weights"].a) /\ parts("Functions"))
       [] KindOf(m, n) = "Division" -> yes(Has(q, "Numerator", "s") /\ Has(q, "Denominator", "s") /\ part(q["Numerator"].s) /\ part(q["Denominator"].s))
       [] KindOf(m, n) = "Least Squares" -> yes(/\ Has(q, "Functions", "as") /\ Has(q, "Weights", "a") /\ Has(q, "Gold Values", "a")
                                              /\ Len(q["Functions"].as) = Len(q["Weights"].a) /\ Len(q["Functions"].as) = Len(q["Gold Values"].a) /\ parts("Functions"))
       [] KindOf(m, n) = "Mass Properties" -> yes(MassOk(q))
       [] KindOf(m, n) = "Solution" /\ ~lin -> yes(Has(q, "Domain", "s") /\ (Has(q, "Normal", "a") \/ m.nd = 1) /\ q["Domain"].s \in DOMAIN m.nsets)
       [] OTHER -> "none"

(* ---- values ---- *)
CellOf(m, k) == m.doms[k[1]].cells[k[2]]
\* sum over the cells of all domains of f(domain, cell)
Over(m, f(_, _)) == LET dc == DomCells(m) IN RSum([i \in 1..Len(dc) |-> f(m.doms[dc[i][1]], CellOf(m, dc[i]))])
Bare(m) == [m EXCEPT !.p = <<>>]
Root(x, p) == IF RIsZero(RVal(x)) THEN "0" ELSE IF REq(p, "1") THEN x ELSE IF REq(p, "2") THEN RSqrt(x) ELSE RPow(x, RDiv("1", p))
Kin(m, D, c, U, X) == Response(Bare(m), D.mat, Local(m, c, U), Grads(m.d, Corners(m, c, X)))
\* the homogenised stress: of the unit strain the cell problem is forced with, less that of the strain of the solution
Effective(m, D, c, U, X) == LET e == Kin(m, D, c, U, X).e  C == D.mat.C IN
  Now([k \in 1..Len(e) |-> RSub(C[Column(m)][k], RSum([j \in 1..Len(e) |-> RMul(e[j], C[j][k])]))])
Vol(m, c, X) == Volume(m.d, Corners(m, c, X))
\* the field a p-norm aggregates, on one cell
NormField(m, q, D, c, U, z, X) == LET f == G!Pen(PenModel(q), CellMean(m, c, z))  r == Kin(m, D, c, U, X) IN
  IF m.phys = "Thermal" THEN VScale(f, r.q) ELSE VScale(f, r.s)
NormCell(m, q, D, c, U, z, X) == LET v == NormField(m, q, D, c, U, z, X)  vol == Vol(m, c, X) IN
  IF m.phys = "Thermal" THEN V!PNorm(v, q["Exponent"].v, vol) ELSE V!ListNorm(m.d, q, v, vol)
Energy(m, r, D) == CASE m.phys = "Mechanics" -> RMul("1/2", RDot(r.s, r.e)) [] m.phys = "Thermal" -> RDot(r.q, r.g)
  [] m.phys = "StabilizedMechanics" -> RDot(r.s, r.e)
  [] m.phys = "Thermomechanics" -> RAdd(RDot(r.s, r.e), RDot(r.q, r.g)) [] OTHER -> RSub(RDot(r.s, r.e), RDot(r.q, r.g))
ScalarValue(m, q, U, z, X) ==
  LET f == Word(q, "Scalar Function Type")
      pen(c) == G!Pen(PenModel(q), CellMean(m, c, z))
  IN CASE f \in {"Stress P-Norm", "Flux P-Norm"} -> Root(Over(m, LAMBDA D, c : NormCell(m, q, D, c, U, z, X)), q["Exponent"].v)
       [] f = "Volume" -> Over(m, LAMBDA D, c : RMul(pen(c), Vol(m, c, X)))
       [] f = "Density Penalty" -> LET a == IF Has(q, "Penalty Amplitude", "d") THEN q["Penalty Amplitude"].v ELSE "1" IN
            Over(m, LAMBDA D, c : RMul(RDiv(a, "2"), RSub("1", RCos(RMul(RMul("2", G!Pi), CellMean(m, c, z))))))
       [] f = "Effective Energy" -> Over(m, LAMBDA D, c :
            RMul(RMul(pen(c), Vol(m, c, X)), RDot(Effective(m, D, c, U, X), [k \in 1..Volt(m.d) |-> q["Assumed Strain"].a[k]])))
       [] OTHER -> Over(m, LAMBDA D, c : RMul(RMul(pen(c), Vol(m, c, X)), Energy(m, Kin(m, D, c, U, X), D)))
\* mean over a node set of a component of the solution, or of the length of its components
SolutionValue(m, q, U) ==
  LET s == m.nsets[q["Domain"].s]
      nrm == [i \in 1..m.nd |-> IF Has(q, "Normal", "a") THEN (IF i <= Len(q["Normal"].a) THEN q["Normal"].a[i] ELSE "0") ELSE "1"]
      comp(n) == [i \in 1..m.nd |-> RMul(nrm[i], U[(n * m.nd) + i])]
      size(n) == LET v == comp(n)  x == RDot(v, v) IN IF RIsZero(RVal(x)) THEN "0" ELSE RSqrt(x)
  IN RDiv(RSum([j \in 1..Len(s) |-> IF Has(q, "Magnitude", "b") /\ q["Magnitude"].b THEN size(s[j]) ELSE RSum(comp(s[j]))]), Len(s))
\* mass moments: the density of a domain times the mean design, at the centre of each cell
Density(m, D) == LET q == Sub(Sub(m.p, "Material Models"), D.name) IN IF Has(q, "Density", "d") THEN q["Density"].v ELSE "1"
Moment(m, z, X, f(_)) == Over(m, LAMBDA D, c : RMul(RMul(RMul(CellMean(m, c, z), Density(m, D)), Vol(m, c, X)), f(Centre(m.d, Corners(m, c, X)))))
MassOf(m, z, X) == Moment(m, z, X, LAMBDA x : "1")
First(m, z, X, i) == Moment(m, z, X, LAMBDA x : x[i])
Second(m, z, X, i, j) == Moment(m, z, X, LAMBDA x : RMul(x[i], x[j]))
\* entry of the inertia tensor about the origin
Inertia(m, z, X, i, j) == IF i # j THEN RNeg(Second(m, z, X, i, j)) ELSE Moment(m, z, X, LAMBDA x : RSum([k \in 1..3 |-> IF k = i THEN "0" ELSE RMul(x[k], x[k])]))
Extent(m, i) == LET v == [n \in 1..NN(m) |-> m.X[n][i]]
                    hi == CHOOSE a \in {v[n] : n \in 1..Len(v)} : \A n \in 1..Len(v) : RLeq(v[n], a)
                    lo == CHOOSE a \in {v[n] : n \in 1..Len(v)} : \A n \in 1..Len(v) : RLeq(a, v[n]) IN RSub(hi, lo)
Cutoff == "0x1.999999999999ap-4"        \* a tenth, as the code has it
ByGold(g) == IF RLt(Cutoff, RAbs(g)) THEN RAbs(g) ELSE "1"
AtLeast(x) == IF RLt(Cutoff, RAbs(x)) THEN RAbs(x) ELSE Cutoff
Missed(w, f, g, s) == LET x == RDiv(RSub(f, g), s) IN RMul(w, RMul(x, x))
Ax(c) == CASE c = "x" -> 1 [] c = "y" -> 2 [] OTHER -> 3
AxesOf(n) == CASE n \in {"CGx"} -> <<1, 1>> [] n = "CGy" -> <<2, 2>> [] n = "CGz" -> <<3, 3>> [] n = "Ixx" -> <<1, 1>> [] n = "Iyy" -> <<2, 2>> [] n = "Izz" -> <<3, 3>>
  [] n = "Ixy" -> <<1, 2>> [] n = "Ixz" -> <<1, 3>> [] OTHER -> <<2, 3>>
Item(m, n, w, g, z, X) == LET a == AxesOf(n) IN
  CASE n = "Mass" -> Missed(w, MassOf(m, z, X), g, ByGold(g))
    [] n \in {"CGx", "CGy", "CGz"} -> Missed(w, RDiv(First(m, z, X, a[1]), MassOf(m, z, X)), g, AtLeast(Extent(m, a[1])))
    [] OTHER -> Missed(w, Inertia(m, z, X, a[1], a[2]), g, ByGold(g))
\* all ten: the inertia about the given centre, in the given principal axes.  Q, l are a witness for those axes (any order is allowed)
At(q, n, k) == LET i == CHOOSE j \in 1..Len(q["Properties"].as) : q["Properties"].as[j] = n IN q[k].a[i]
Shift(c) == LET s == RDot(c, c) IN [i \in 1..3 |-> [j \in 1..3 |-> RSub(IF i = j THEN s ELSE "0", RMul(c[i], c[j]))]]
GoldAbout(q) == LET g(n) == At(q, n, "Gold Values")  c == <<g("CGx"), g("CGy"), g("CGz")>>  s == Shift(c)
                    I == <<<<g("Ixx"), g("Ixy"), g("Ixz")>>, <<g("Ixy"), g("Iyy"), g("Iyz")>>, <<g("Ixz"), g("Iyz"), g("Izz")>>>>
                IN [i \in 1..3 |-> [j \in 1..3 |-> RSub(I[i][j], RMul(g("Mass"), s[i][j]))]]
Turned3(Q, A) == MMul(MTrans(Q), MMul(A, Q))
WitnessOk(q, Q, l) ==
  /\ \A i, j \in 1..3 : RNear(MMul(MTrans(Q), Q)[i][j], IF i = j THEN "1" ELSE "0", "1", "1/1000000000000")
  /\ LET T == Turned3(Q, GoldAbout(q)) IN \A i, j \in 1..3 : RNear(T[i][j], IF i = j THEN l[i] ELSE "0", RMaxAbs(l), "1/1000000000000")
Whole10(m, q, z, X, Q, l) ==
  LET w(n) == At(q, n, "Weights")  g(n) == At(q, n, "Gold Values")
      c == <<g("CGx"), g("CGy"), g("CGz")>>  s == Shift(c)  mass == MassOf(m, z, X)
      T == Turned3(Q, [i \in 1..3 |-> [j \in 1..3 |-> RSub(Inertia(m, z, X, i, j), RMul(mass, s[i][j]))]])
      least == RMin(l[1], RMin(l[2], l[3]))
      cg(n) == LET i == AxesOf(n)[1] IN Missed(w(n), RDiv(First(m, z, X, i), mass), g(n), AtLeast(Extent(m, i)))
      pr(n) == LET i == AxesOf(n)[1] IN Missed(w(n), T[i][i], l[i], ByGold(l[i]))
      off(n) == LET a == AxesOf(n) IN Missed(w(n), T[a[1]][a[2]], "0", AtLeast(least))
  IN RSum(<<Missed(w("Mass"), mass, g("Mass"), ByGold(g("Mass"))), cg("CGx"), cg("CGy"), cg("CGz"), pr("Ixx"), pr("Iyy"), pr("Izz"), off("Ixy"), off("Ixz"), off("Iyz")>>)
IsWhole(q) == Len(q["Properties"].as) = 10
Orders == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
ColsOf(Q, o) == [i \in 1..3 |-> [j \in 1..3 |-> Q[i][o[j]]]]
MassValue(m, q, z, X, wit) ==
  IF IsWhole(q) THEN Whole10(m, q, z, X, wit.Q, wit.l)
  ELSE RSum([i \in 1..Len(q["Properties"].as) |-> Item(m, q["Properties"].as[i], q["Weights"].a[i], q["Gold Values"].a[i], z, X)])
RECURSIVE Value(_, _, _, _, _, _, _)
Value(m, n, lin, U, z, X, wit) ==
  LET q == Entry(m, n)  val(k) == Value(m, k, lin, U, z, X, wit) IN
  CASE KindOf(m, n) = "Scalar Function" -> ScalarValue(m, q, U, z, X)
    [] KindOf(m, n) = "Weighted Sum" -> RSum([i \in 1..Len(q["Functions"].as) |-> RMul(q["Weights"].a[i], val(q["Functions"].as[i]))])
    [] KindOf(m, n) = "Division" -> RDiv(val(q["Numerator"].s), val(q["Denominator"].s))
    [] KindOf(m, n) = "Least Squares" -> RSum([i \in 1..Len(q["Functions"].as) |-> LET g == q["Gold Values"].a[i] IN Missed(q["Weights"].a[i], val(q["Functions"].as[i]), g, ByGold(g))])
    [] KindOf(m, n) = "Mass Properties" -> MassValue(m, q, z, X, wit)
    [] OTHER -> SolutionValue(m, q, U)
\* the criteria a criterion is made of, itself included
RECURSIVE Parts(_, _)
Parts(m, n) == LET q == Entry(m, n) IN
  {n} \cup (CASE KindOf(m, n) \in {"Weighted Sum", "Least Squares"} -> UNION {Parts(m, q["Functions"].as[i]) : i \in 1..Len(q["Functions"].as)}
              [] KindOf(m, n) = "Division" -> Parts(m, q["Numerator"].s) \cup Parts(m, q["Denominator"].s)
              [] OTHER -> {})
\* a quotient whose denominator vanishes has no value
Undefined(m, n, lin, U, z, X, wit) == \E k \in Parts(m, n) : KindOf(m, k) = "Division" /\ RIsZero(RVal(Value(m, Entry(m, k)["Denominator"].s, lin, U, z, X, wit)))
\* no derivative: where the penalty has a kink (in the design), where a norm vanishes on a cell (in anything)
DesignKink(m, n, z) == \E k \in Parts(m, n) : KindOf(m, k) = "Scalar Function" /\ Fun(m, k) # "Density Penalty" /\
  \E i \in 1..Len(DomCells(m)) : G!Kink(PenModel(Entry(m, k)), CellMean(m, CellOf(m, DomCells(m)[i]), z))
Negligible(v) == RLeq(RMaxAbs(v), RMul("1/100000000", RMaxAbs([i \in 1..Len(v) |-> RMag(v[i])])))   \* nothing but rounding
NormKink(m, n, U, z) == \E k \in Parts(m, n) : KindOf(m, k) = "Scalar Function" /\ Fun(m, k) \in {"Stress P-Norm", "Flux P-Norm"} /\
  \E i \in 1..Len(DomCells(m)) : LET dc == DomCells(m)[i]  v == NormField(m, Entry(m, k), m.doms[dc[1]], CellOf(m, dc), U, z, m.X) IN
    Negligible(v) \/ RIsZero(RVal(NormCell(m, Entry(m, k), m.doms[dc[1]], CellOf(m, dc), U, z, m.X)))
\* fields a criterion puts out when asked to
CritFields(m, n) == IF KindOf(m, n) # "Scalar Function" THEN {} ELSE
  LET q == Entry(m, n)  asked(p) == IF Has(p, "Plottable", "as") THEN {p["Plottable"].as[i] : i \in 1..Len(p["Plottable"].as)} ELSE {} IN
  CASE Mixed(m.phys) -> {}
    [] Fun(m, n) = "Internal Elastic Energy" -> asked(m.p) \cap {"strain", "stress"}
    [] Fun(m, n) = "Internal Electroelastic Energy" -> asked(m.p) \cap {"strain", "stress", "edisp"}
    [] Fun(m, n) = "Effective Energy" -> asked(q) \cap {"effective stress", "cell volume"}
    [] OTHER -> {}
CritField(m, n, D, c, e, name) ==
  LET q == Entry(m, n)  b == [Bare(m) EXCEPT !.pen = PenModel(q)] IN
  CASE name = "cell volume" -> <<Vol(m, c, m.X)>>
    [] name = "effective stress" -> VScale(G!Pen(PenModel(q), CellMean(m, c, e.z)), Effective(m, D, c, e.u, m.X))
    [] OTHER -> Field(b, D, c, e.u, e.z, name)
CritFieldsOk(m, e) ==
  LET giving(name) == {k \in Parts(m, e.name) : name \in CritFields(m, k)} IN
  /\ DOMAIN e.out.map = UNION {CritFields(m, k) : k \in Parts(m, e.name)}
  /\ \A name \in DOMAIN e.out.map : \E k \in giving(name) : LET o == e.out.map[name] IN Len(o) = Len(m.E) /\ \A c \in 1..Len(m.E) :
       LET D == {n \in DOMAIN m.doms : \E j \in 1..Len(m.doms[n].cells) : m.doms[n].cells[j] = c} IN
       IF D = {} THEN \A i \in 1..Len(o[c]) : RIsZero(o[c][i]) ELSE \E n \in D : VClose(o[c], CritField(m, k, m.doms[n], c, e, name))

(* ------------------------------ judging ------------------------------------ *)
NoWitness == [Q |-> <<>>, l |-> <<>>]
Witnesses(e) == IF "Q" \in DOMAIN e THEN {[Q |-> ColsOf(e.Q, o), l |-> <<e.l[o[1]], e.l[o[2]], e.l[o[3]]>>] : o \in Orders} ELSE {NoWitness}
EvalOk(m, e, wit) ==
  LET U == Along(e.u, e.du, 1)  z == Along(e.z, e.dz, 2)  X == AlongX(m.X, e.dx, 3)
      v == Value(m, e.name, e.linear, U, z, X, wit)  k == NormKink(m, e.name, e.u, e.z)
  IN IF ~RClose(e.out.r, RVal(v)) THEN "the value of the criterion is wrong"
     ELSE IF k THEN "ok"
     ELSE IF ~RClose(e.out.u, RDer(v, 1)) THEN "the derivative of the criterion in the state is wrong"
     ELSE IF ~DesignKink(m, e.name, e.z) /\ ~RClose(e.out.z, RDer(v, 2)) THEN "the derivative of the criterion in the design is wrong"
     ELSE IF ~RClose(e.out.x, RDer(v, 3)) THEN "the derivative of the criterion in the positions is wrong"
     ELSE "ok"
JudgeCrit(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      m == s[e.M]
  IN
  CASE e.op = "ebc" -> IF ~SupportsOk(m) THEN (IF e.exc THEN ok(s) ELSE bad("contradictory or incomplete boundary conditions were accepted"))
                       ELSE IF ~e.exc /\ SameConditions(e.out.dofs, e.out.vals, Prescribed(m, e.time, e.scale)) THEN ok(s) ELSE bad("these are not the prescribed degrees of freedom")
  [] e.op = "crit" -> LET w == Made(m, e.name, e.linear) IN
       IF w = "bad" THEN (IF e.exc THEN ok(s) ELSE bad("an incomplete or contradictory criterion was accepted"))
       ELSE IF e.exc THEN bad("a complete criterion was rejected")
       ELSE IF e.out.made # (w = "made") THEN bad("a criterion was created that is not defined, or the reverse")
       ELSE ok([s EXCEPT ![e.M].crit = IF w = "made" THEN Upd(@, e.name, e.linear) ELSE @])
  [] e.op = "ceval" ->
       IF e.name \notin DOMAIN m.crit \/ m.crit[e.name] # e.linear THEN ok(s)
       ELSE LET W == Witnesses(e)
                bads == {w \in W : w # NoWitness /\ \E k \in Parts(m, e.name) : KindOf(m, k) = "Mass Properties" /\ IsWhole(Entry(m, k)) /\ ~WitnessOk(Entry(m, k), w.Q, w.l)}
            IN IF bads # {} THEN bad("the scenario's principal axes are wrong")
               ELSE IF Undefined(m, e.name, e.linear, e.u, e.z, m.X, CHOOSE w \in W : TRUE) THEN (IF e.exc THEN ok(s) ELSE bad("a quotient by zero was accepted"))
               ELSE IF e.exc THEN bad("the criterion failed")
               ELSE IF ~CritFieldsOk(m, e) THEN bad("a field was output with wrong values, or not as asked")
               ELSE IF \E w \in W : EvalOk(m, e, w) = "ok" THEN ok(s) ELSE bad(EvalOk(m, e, CHOOSE w \in W : TRUE))
  [] OTHER -> bad("unknown operation")
=============================================================================
