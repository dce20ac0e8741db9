------------------------------ MODULE Material ------------------------------
(* Material properties: constants and temperature-dependent (quadratic)       *)
(* functions of rank 0, 2 and 4, how input lists define them, the store of a  *)
(* material model, its factories, and the heat flux and content it yields.    *)
(* A parameter list is a function name |-> [t |-> type, ...] with types       *)
(* d (double, in v), i (int), b (bool), s (string), l (sublist, in l).        *)
(* A property is [n |-> size, c |-> <<C0, C1, C2>>]: C0 + C1 x + C2 x^2.       *)
EXTENDS Vec, TLC

Has(p, k, t) == k \in DOMAIN p /\ p[k].t = t
GetD(p, k, def) == IF Has(p, k, "d") THEN p[k].v ELSE def
ListOf(p, k) == p[k].l
NV(dim) == CASE dim = 1 -> 1 [] dim = 2 -> 3 [] OTHER -> 6
Z2(n) == MZero(n, n)
Zero(n) == [n |-> n, c |-> <<Z2(n), Z2(n), Z2(n)>>]
Sq(n, f(_, _)) == [i \in 1..n |-> [j \in 1..n |-> f(i, j)]]
Bad == [ok |-> FALSE, m |-> Zero(1)]
Good(m) == [ok |-> TRUE, m |-> m]
Const(n, C) == [n |-> n, c |-> <<C, Z2(n), Z2(n)>>]
Lo(i, j) == IF i < j THEN i ELSE j
Hi(i, j) == IF i < j THEN j ELSE i
Key(pre, i, j) == "c" \o pre \o ToString(Lo(i, j)) \o ToString(Hi(i, j))

(* ---- properties from lists ---- *)
\* diagonal entries default to the first one, off-diagonal ones to zero
TensorC(p, dim, pre) == Sq(dim, LAMBDA i, j :
  IF i = j THEN GetD(p, Key(pre, i, i), GetD(p, Key(pre, 1, 1), "0")) ELSE GetD(p, Key(pre, i, j), "0"))
\* stiffness: normal entries default to 11, normal couplings to 12, shear entries to the first shear entry
VoigtC(p, dim, pre) ==
  LET s == dim + 1 IN Sq(NV(dim), LAMBDA i, j :
    CASE i = j /\ i <= dim -> GetD(p, Key(pre, i, i), GetD(p, Key(pre, 1, 1), "0"))
      [] i = j -> GetD(p, Key(pre, i, i), GetD(p, Key(pre, s, s), "0"))
      [] i # j /\ Hi(i, j) <= dim -> GetD(p, Key(pre, i, j), GetD(p, Key(pre, 1, 2), "0"))
      [] OTHER -> "0")
TensorList(w, dim, p) ==
  IF w = "constant" THEN (IF Has(p, "c11", "d") THEN Good(Const(dim, TensorC(p, dim, ""))) ELSE Bad)
  ELSE IF Has(p, "c011", "d") THEN Good([n |-> dim, c |-> <<TensorC(p, dim, "0"), TensorC(p, dim, "1"), TensorC(p, dim, "2")>>]) ELSE Bad
VoigtList(w, dim, p) ==
  LET z == IF w = "constant" THEN "" ELSE "0"
      req == {Key(z, 1, 1)} \union (IF dim = 1 THEN {} ELSE {Key(z, dim + 1, dim + 1)})
  IN IF \E k \in req : ~Has(p, k, "d") THEN Bad
     ELSE IF w = "constant" THEN Good(Const(NV(dim), VoigtC(p, dim, "")))
     ELSE Good([n |-> NV(dim), c |-> <<VoigtC(p, dim, "0"), VoigtC(p, dim, "1"), VoigtC(p, dim, "2")>>])
IsoC(dim, E, v) ==
  LET k == RDiv(E, RMul(RAdd("1", v), RSub("1", RMul("2", v)))) IN Sq(NV(dim), LAMBDA i, j :
    CASE i = j /\ i <= dim -> RMul(k, RSub("1", v))
      [] i = j -> RMul(RMul("1/2", k), RSub("1", RMul("2", v)))
      [] i # j /\ Hi(i, j) <= dim -> RMul(k, v)
      [] OTHER -> "0")
IsoFun(dim, E, v) == IF ~Has(E, "c0", "d") THEN Bad
  ELSE Good([n |-> NV(dim), c |-> <<IsoC(dim, E["c0"].v, v), IsoC(dim, GetD(E, "c1", "0"), v), IsoC(dim, GetD(E, "c2", "0"), v)>>])
IsoList(w, dim, p) ==
  IF ~Has(p, "Poissons Ratio", "d") THEN Bad
  ELSE LET v == p["Poissons Ratio"].v IN
    IF w = "constant" THEN (IF Has(p, "Youngs Modulus", "d") THEN Good(Const(NV(dim), IsoC(dim, p["Youngs Modulus"].v, v))) ELSE Bad)
    ELSE IF ~Has(p, "Youngs Modulus", "l") THEN Bad ELSE IsoFun(dim, ListOf(p, "Youngs Modulus"), v)
ScalarConst(v) == Const(1, <<<<v>>>>)
ScalarList(p) == IF ~Has(p, "c0", "d") THEN Bad
  ELSE Good([n |-> 1, c |-> <<<<<<p["c0"].v>>>>, <<<<GetD(p, "c1", "0")>>>>, <<<<GetD(p, "c2", "0")>>>>>>])
Diag(dim, v) == Const(dim, Sq(dim, LAMBDA i, j : IF i = j THEN v ELSE "0"))
Quad(m, i, j, x) == RAdd(RAdd(m.c[1][i][j], RMul(m.c[2][i][j], x)), RMul(m.c[3][i][j], RMul(x, x)))
Vals(m, x) == Sq(m.n, LAMBDA i, j : Quad(m, i, j, x))
Ders(m, x) == Sq(m.n, LAMBDA i, j : RAdd(m.c[2][i][j], RMul("2", RMul(m.c[3][i][j], x))))

(* ---- a property as given by one event ---- *)
Given(e, rank, dim) ==
  LET n == CASE rank = "s" -> 1 [] rank = "t" -> dim [] OTHER -> NV(dim) IN
  CASE e.ctor = "zero" -> Good(Zero(n))
    [] e.ctor = "value" -> Good(IF rank = "s" THEN ScalarConst(e.v) ELSE Diag(dim, e.v))
    [] e.ctor = "list" -> (CASE rank = "s" -> ScalarList(e.p) [] rank = "t" -> TensorList(e.w, dim, e.p) [] OTHER -> VoigtList(e.w, dim, e.p))
    [] e.ctor = "iso" -> IsoList(e.w, dim, e.p)
    [] OTHER -> Bad

(* ---- the store ---- *)
\* slots: sc tc vc (constants), sf tf vf (functions)
Slots == {"sc", "tc", "vc", "sf", "tf", "vf"}
Rank(w) == CASE w \in {"sc", "sf"} -> "s" [] w \in {"tc", "tf"} -> "t" [] OTHER -> "v"
SizeOf(w, dim) == CASE Rank(w) = "s" -> 1 [] Rank(w) = "t" -> dim [] OTHER -> NV(dim)
Model0(dim, type) == [dim |-> dim, type |-> type, store |-> [w \in Slots |-> <<>>]]
TypeOf(p) == IF Has(p, "Temperature Dependent", "b") /\ p["Temperature Dependent"].b THEN "Nonlinear" ELSE "Linear"
Put(mo, w, name, m) == [mo EXCEPT !.store[w] = (name :> m) @@ @]
Got(mo, w, name) == IF name \in DOMAIN mo.store[w] THEN mo.store[w][name] ELSE Zero(SizeOf(w, mo.dim))
Fail == [ok |-> FALSE, mo |-> Model0(1, "Linear")]
Okay(mo) == [ok |-> TRUE, mo |-> mo]
PutIf(mo, w, name, r) == IF r.ok THEN Okay(Put(mo, w, name, r.m)) ELSE Fail
Non(mo) == mo.type = "Nonlinear"
ParseStep(mo, what, name, p, def) ==
  CASE what = "scalar" ->
         IF Has(p, name, "d") THEN Okay(Put(mo, IF Non(mo) THEN "sf" ELSE "sc", name, ScalarConst(p[name].v)))
         ELSE IF Has(p, name, "l") /\ Non(mo) THEN PutIf(mo, "sf", name, ScalarList(ListOf(p, name)))
         ELSE Fail
    [] what = "const" -> IF Has(p, name, "d") THEN Okay(Put(mo, "sc", name, ScalarConst(p[name].v))) ELSE Fail
    [] what = "constdef" -> Okay(Put(mo, "sc", name, ScalarConst(GetD(p, name, def))))
    [] what = "tensor" ->
         IF Has(p, name, "d") THEN Okay(Put(mo, IF Non(mo) THEN "tf" ELSE "tc", name, Diag(mo.dim, p[name].v)))
         ELSE IF Has(p, name, "l") THEN PutIf(mo, IF Non(mo) THEN "tf" ELSE "tc", name, TensorList(IF Non(mo) THEN "functor" ELSE "constant", mo.dim, ListOf(p, name)))
         ELSE Fail
    [] what = "voigt" ->
         IF Has(p, name, "l") THEN PutIf(mo, IF Non(mo) THEN "vf" ELSE "vc", name, VoigtList(IF Non(mo) THEN "functor" ELSE "constant", mo.dim, ListOf(p, name)))
         ELSE Fail
    [] OTHER -> Fail
Then(r, what, name, p, def) == IF r.ok THEN ParseStep(r.mo, what, name, p, def) ELSE Fail
Stiffness(mo, p) ==
  IF ~Has(p, "Elastic Stiffness", "l") THEN Fail
  ELSE LET q == ListOf(p, "Elastic Stiffness")  nm == "Elastic Stiffness" IN
    IF Has(q, "Youngs Modulus", "l") THEN (IF Non(mo) THEN PutIf(mo, "vf", nm, IsoList("functor", mo.dim, q)) ELSE Fail)
    ELSE IF Has(q, "Youngs Modulus", "d") THEN PutIf(mo, IF Non(mo) THEN "vf" ELSE "vc", nm, IsoList("constant", mo.dim, q))
    ELSE ParseStep(mo, "voigt", nm, p, "0")
Construct(kind, dim, p) ==
  LET mo == Model0(dim, TypeOf(p)) IN
  CASE kind = "Thermal Conduction" -> ParseStep(mo, "tensor", "Thermal Conductivity", p, "0")
    [] kind = "Thermal Mass" -> Then(ParseStep(mo, "scalar", "Mass Density", p, "0"), "scalar", "Specific Heat", p, "0")
    [] kind = "Thermoelastic" ->
         LET a == Stiffness(mo, p)
             b == Then(a, "tensor", "Thermal Expansivity", p, "0")
             c == Then(b, "tensor", "Thermal Conductivity", p, "0")
             d == Then(c, "constdef", "Reference Temperature", p, "23")
         IN Then(d, "constdef", "Temperature Scaling", p, "1")
    [] OTHER -> Fail
\* [w |-> "null" | "fail" | "model", mo]
Factory(kind, dim, name, p) ==
  LET no(w) == [w |-> w, mo |-> Model0(dim, "Linear")] IN
  IF ~Has(p, "Material Models", "l") THEN no("null")
  ELSE LET q == ListOf(p, "Material Models") IN
    IF ~Has(q, name, "l") THEN no("fail")
    ELSE LET r == ListOf(q, name) IN
      IF ~Has(r, kind, "l") THEN no("fail")
      ELSE LET c == Construct(kind, dim, ListOf(r, kind)) IN IF c.ok THEN [w |-> "model", mo |-> c.mo] ELSE no("fail")

(* ---- heat flux and content ---- *)
FluxOf(mo, g, T) == LET k == Got(mo, IF Non(mo) THEN "tf" ELSE "tc", "Thermal Conductivity") IN
  Now([i \in 1..mo.dim |-> RNeg(RSum([j \in 1..mo.dim |-> RMul(g[j], IF Non(mo) THEN Quad(k, i, j, T) ELSE k.c[1][i][j])]))])
ContentOf(mo, rate, T) == LET f(nm) == IF Non(mo) THEN Quad(Got(mo, "sf", nm), 1, 1, T) ELSE Got(mo, "sc", nm).c[1][1][1]
  IN RMul(rate, RMul(f("Mass Density"), f("Specific Heat")))
\* recorded values v and derivatives d (with respect to one temperature) against dual numbers
DualClose(v, d, x) == RClose(v, RVal(x)) /\ RClose(d, RDer(x, 1))
Tvar(T) == RVar(T, 1, 1)

(* ------------------------------ judging ------------------------------------ *)
Upd(f, k, x) == (k :> x) @@ f
Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      chk(c, w) == IF c THEN ok(s) ELSE bad(w)
      \* a property r that the event samples at e.x (a sequence of inputs)
      sample(r, fun, w) ==
        IF ~r.ok THEN chk(e.exc, "an incomplete definition must be rejected")
        ELSE IF e.exc THEN bad("a complete definition was rejected")
        ELSE chk(\A q \in 1..Len(e.x) : MClose(e.out.r[q], Vals(r.m, e.x[q])) /\ (fun => MClose(e.out.d[q], Ders(r.m, e.x[q]))), w)
  IN
  CASE e.op = "prop" -> sample(Given(e, e.rank, e.dim), e.w = "functor", "the material property has the wrong value")
  [] e.op = "model" -> IF e.exc THEN bad("construction failed") ELSE ok(Upd(s, e.M, Model0(e.dim, IF e.dflt THEN "Linear" ELSE TypeOf(e.p))))
  [] e.op = "make" ->
       LET f == Factory(e.kind, e.dim, e.name, e.p) IN
       CASE f.w = "null" -> chk(~e.exc /\ e.out.null, "without models there is nothing to create")
         [] f.w = "fail" -> chk(e.exc, "an incomplete or contradictory material was accepted")
         [] OTHER -> IF e.exc THEN bad("a complete material was rejected")
                     ELSE IF e.out.null THEN bad("no material was created") ELSE ok(Upd(s, e.M, f.mo))
  [] e.op = "type" -> chk(~e.exc /\ e.out.r = s[e.M].type, "wrong material type")
  [] e.op = "parse" ->
       LET r == ParseStep(s[e.M], e.what, e.name, e.p, e.def) IN
       IF r.ok THEN (IF e.exc THEN bad("a complete property was rejected") ELSE ok(Upd(s, e.M, r.mo)))
       ELSE chk(e.exc, "an incomplete property was accepted")
  [] e.op = "set" ->
       LET r == Given(e, Rank(e.slot), s[e.M].dim) IN
       IF r.ok /\ ~e.exc THEN ok(Upd(s, e.M, Put(s[e.M], e.slot, e.name, r.m)))
       ELSE chk(~r.ok /\ e.exc, "setting a property failed")
  [] e.op = "get" -> sample(Good(Got(s[e.M], e.slot, e.name)), e.slot \in {"sf", "tf", "vf"}, "the stored property is not the one returned")
  [] e.op = "flux" ->
       IF e.exc THEN bad("the flux failed")
       ELSE chk(Len(e.out.r) = Len(e.grad) /\ \A c \in 1..Len(e.grad) :
                  IF e.form = 2 THEN VClose(e.out.r[c], FluxOf(s[e.M], e.grad[c], "0"))
                  ELSE LET f == FluxOf(s[e.M], e.grad[c], Tvar(e.T[c])) IN \A i \in 1..Len(f) : DualClose(e.out.r[c][i], e.out.d[c][i], f[i]),
                "the heat flux is not minus conductivity times gradient")
  [] e.op = "content" ->
       IF e.exc THEN bad("the content failed")
       ELSE chk(Len(e.out.r) = Len(e.rate) /\ \A c \in 1..Len(e.rate) :
                  IF e.form = 2 THEN RClose(e.out.r[c], ContentOf(s[e.M], e.rate[c], "0"))
                  ELSE DualClose(e.out.r[c], e.out.d[c], ContentOf(s[e.M], e.rate[c], Tvar(e.T[c]))),
                "the thermal content is not density times specific heat times rate")
  [] e.op = "param" -> IF Has(e.p, e.name, "d") THEN chk(~e.exc /\ REq(e.out.r, e.p[e.name].v), "wrong parameter")
                       ELSE IF e.hasdef THEN chk(~e.exc /\ REq(e.out.r, e.def), "wrong default") ELSE chk(e.exc, "a missing parameter must be rejected")
  [] e.op = "subparam" ->
       IF ~Has(e.p, e.sub, "l") THEN chk(~e.exc /\ REq(e.out.r, e.def), "wrong default")
       ELSE LET q == ListOf(e.p, e.sub) IN
         IF Has(q, e.name, "d") THEN chk(~e.exc /\ REq(e.out.r, q[e.name].v), "wrong parameter")
         ELSE IF e.name \in DOMAIN q THEN chk(e.exc, "a parameter of the wrong type must be rejected")
         ELSE chk(~e.exc /\ REq(e.out.r, e.def), "wrong default")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
