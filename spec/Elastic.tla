------------------------------ MODULE Elastic -------------------------------
(* Elastic, electroelastic and thermoelastic material models: which input     *)
(* lists define one, its stiffness and other constants, and the stress, flux, *)
(* electric displacement and stabilisation that follow from them.             *)
EXTENDS Dual, TLC
M == INSTANCE Material

Upd(f, k, x) == (k :> x) @@ f
Has(p, k) == M!Has(p, k, "d")
Val(p, k) == p[k].v
Def(p, k, d) == M!GetD(p, k, d)
NV(d) == M!NV(d)
Sq(n, f(_, _)) == M!Sq(n, f)
Bad == [ok |-> FALSE]
\* an isotropic stiffness of Lame type with coefficient k = E / ((1 + v) (1 - 2 v))
IsoK(d, k, v) == Sq(NV(d), LAMBDA i, j :
    CASE i = j /\ i <= d -> RMul(k, RSub("1", v))
      [] i = j -> RMul(RMul("1/2", k), RSub("1", RMul("2", v)))
      [] i # j /\ i <= d /\ j <= d -> RMul(k, v)
      [] OTHER -> "0")
Bulk(E, v) == RDiv(E, RMul("3", RSub("1", RMul("2", v))))
RefKeys(d) == CASE d = 1 -> <<"e11">> [] d = 2 -> <<"e11", "e22", "e12">> [] OTHER -> <<"e11", "e22", "e33", "e23", "e13", "e12">>
Ref(d, p) == [k \in 1..NV(d) |-> Def(p, RefKeys(d)[k], "0")]
Model(d, p, C, ps) == [ok |-> TRUE, dim |-> d, C |-> C, ref |-> Ref(d, p), rho |-> Def(p, "Mass Density", "1"), ps |-> ps,
                       ra |-> Def(p, "RayleighA", "0"), rb |-> Def(p, "RayleighB", "0")]

(* ---- isotropic, cubic, custom ---- *)
Isotropic(d, p) == IF ~(Has(p, "Poissons Ratio") /\ Has(p, "Youngs Modulus")) THEN Bad
  ELSE LET v == Val(p, "Poissons Ratio")  E == Val(p, "Youngs Modulus") IN Model(d, p, M!IsoC(d, E, v), Def(p, "Pressure Scaling", Bulk(E, v)))
Cubic(d, p) == IF ~(Has(p, "C11") /\ (d > 1 => Has(p, "C12") /\ Has(p, "C44"))) THEN Bad
  ELSE Model(d, p, Sq(NV(d), LAMBDA i, j : CASE i = j /\ i <= d -> Val(p, "C11") [] i = j -> Val(p, "C44") [] i # j /\ i <= d /\ j <= d -> Val(p, "C12") [] OTHER -> "0"), "1")
\* the coefficient is the equation given; the scenarios use three
Equation(w, E, v) == CASE w = "iso" -> RDiv(E, RMul(RAdd("1", v), RSub("1", RMul("2", v))))
                       [] w = "mix" -> RAdd(RMul(E, RSub("1", v)), RMul("2", v))
                       [] OTHER -> RMul(E, E)
Custom(d, p, w) == IF ~(Has(p, "v") /\ Has(p, "E")) THEN Bad
  ELSE LET v == Val(p, "v")  E == Val(p, "E") IN Model(d, p, IsoK(d, Equation(w, E, v), v), Def(p, "Pressure Scaling", Bulk(E, v)))

(* ---- orthotropic: the stiffness inverts the compliance ---- *)
OrthoKeys(d) == CASE d = 1 -> {"Poissons Ratio", "Youngs Modulus"}
  [] d = 2 -> {"Youngs Modulus X", "Youngs Modulus Y", "Shear Modulus XY", "Poissons Ratio XY"}
  [] OTHER -> {"Youngs Modulus X", "Youngs Modulus Y", "Youngs Modulus Z", "Shear Modulus XY", "Shear Modulus XZ", "Shear Modulus YZ",
               "Poissons Ratio XY", "Poissons Ratio XZ", "Poissons Ratio YZ"}
Ax == <<"X", "Y", "Z">>
Ey(p, i) == Val(p, "Youngs Modulus " \o Ax[i])
Nu(p, i, j) == Val(p, "Poissons Ratio " \o Ax[i] \o Ax[j])      \* i < j
Positive(d, p) == \A k \in OrthoKeys(d) : (\E i \in 1..3 : k = "Youngs Modulus " \o Ax[i] \/ \E j \in 1..3 : k = "Shear Modulus " \o Ax[i] \o Ax[j]) => RLeq("0", Val(p, k))
\* |nu| <= sqrt(Ei / Ej) for the given ratios and for their mirror images: both say nu^2 Ej <= Ei
Pairs(d) == IF d = 2 THEN {<<1, 2>>} ELSE {<<1, 2>>, <<1, 3>>, <<2, 3>>}
PairOk(p, q) == RLeq(RMul(RMul(Nu(p, q[1], q[2]), Nu(p, q[1], q[2])), Ey(p, q[2])), Ey(p, q[1]))
PairTie(p, q) == RTie(RMul(RMul(Nu(p, q[1], q[2]), Nu(p, q[1], q[2])), Ey(p, q[2])), Ey(p, q[1]))
\* normal block of the compliance
Comp(d, p) == [i \in 1..d |-> [j \in 1..d |-> IF i = j THEN RDiv("1", Ey(p, i))
  ELSE LET a == IF i < j THEN i ELSE j  b == IF i < j THEN j ELSE i IN RNeg(RDiv(Nu(p, a, b), Ey(p, a)))]]
Det2(A) == RSub(RMul(A[1][1], A[2][2]), RMul(A[1][2], A[2][1]))
Minor(A, i, j) == LET r == CASE i = 1 -> <<2, 3>> [] i = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>  c == CASE j = 1 -> <<2, 3>> [] j = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>
                  IN RSub(RMul(A[r[1]][c[1]], A[r[2]][c[2]]), RMul(A[r[1]][c[2]], A[r[2]][c[1]]))
Det3(A) == RAdd(RSub(RMul(A[1][1], Minor(A, 1, 1)), RMul(A[1][2], Minor(A, 1, 2))), RMul(A[1][3], Minor(A, 1, 3)))
Det(d, A) == IF d = 2 THEN Det2(A) ELSE Det3(A)
Inv(d, A) == IF d = 2 THEN LET D == Det2(A) IN <<<<RDiv(A[2][2], D), RNeg(RDiv(A[1][2], D))>>, <<RNeg(RDiv(A[2][1], D)), RDiv(A[1][1], D)>>>>
  ELSE LET D == Det3(A) IN [i \in 1..3 |-> [j \in 1..3 |-> LET m == RDiv(Minor(A, j, i), D) IN IF (i + j) % 2 = 0 THEN m ELSE RNeg(m)]]
Shear(d, p, k) == Val(p, IF d = 2 THEN "Shear Modulus XY" ELSE CASE k = 4 -> "Shear Modulus YZ" [] k = 5 -> "Shear Modulus XZ" [] OTHER -> "Shear Modulus XY")
Stable(d, p) == Positive(d, p) /\ (\A q \in Pairs(d) : PairOk(p, q)) /\ (d = 3 => RLeq("0", Det3(Comp(3, p))))
\* rounding may decide either way
Border(d, p) == (\E q \in Pairs(d) : PairTie(p, q)) \/ (d = 3 /\ RTie(Det3(Comp(3, p)), "0"))
Orthotropic(d, p) ==
  IF \E k \in OrthoKeys(d) : ~Has(p, k) THEN Bad
  ELSE IF d = 1 THEN Model(1, p, M!IsoC(1, Val(p, "Youngs Modulus"), Val(p, "Poissons Ratio")), "1")
  ELSE IF ~Stable(d, p) THEN Bad
  ELSE LET I == Inv(d, Comp(d, p)) IN Model(d, p, Sq(NV(d), LAMBDA i, j : IF i <= d /\ j <= d THEN I[i][j] ELSE IF i = j THEN Shear(d, p, i) ELSE "0"), "1")

(* ---- electroelastic ---- *)
EmKeys(d) == {"Poissons Ratio", "Youngs Modulus", "e33", "p33"} \cup (IF d = 1 THEN {} ELSE {"e15", "e31", "p11"})
Piezo(d, p) == [i \in 1..d |-> [k \in 1..NV(d) |->
  CASE d = 1 -> Val(p, "e33")
    [] d = 2 /\ <<i, k>> = <<1, 3>> -> Val(p, "e15") [] d = 2 /\ <<i, k>> = <<2, 1>> -> Val(p, "e31") [] d = 2 /\ <<i, k>> = <<2, 2>> -> Val(p, "e33")
    [] d = 3 /\ i = 3 /\ k \in {1, 2} -> Val(p, "e31") [] d = 3 /\ i = 3 /\ k = 3 -> Val(p, "e33")
    [] d = 3 /\ <<i, k>> \in {<<2, 4>>, <<1, 5>>} -> Val(p, "e15")
    [] OTHER -> "0"]]
Permit(d, p) == Sq(d, LAMBDA i, j : IF i # j THEN "0" ELSE IF i = d THEN Val(p, "p33") ELSE Val(p, "p11"))
Electro(d, p) == IF \E k \in EmKeys(d) : ~Has(p, k) THEN Bad
  ELSE [ok |-> TRUE, dim |-> d, C |-> M!IsoC(d, Val(p, "Youngs Modulus"), Val(p, "Poissons Ratio")), e |-> Piezo(d, p), k |-> Permit(d, p), alpha |-> Def(p, "Alpha", "1")]

(* ---- thermoelastic (two-field form) ---- *)
TeIso == {"Thermal Expansion Coefficient", "Thermal Conductivity Coefficient"}
TeCub(d) == {"a" \o ToString(i) \o ToString(i) : i \in 1..d} \cup {"k" \o ToString(i) \o ToString(i) : i \in 1..d}
ThermoE(d, p, cubic) ==
  IF \E k \in {"Reference Temperature", "Poissons Ratio", "Youngs Modulus"} \cup (IF cubic THEN TeCub(d) ELSE TeIso) : ~Has(p, k) THEN Bad
  ELSE LET ii(c, i) == Val(p, c \o ToString(i) \o ToString(i)) IN
       [ok |-> TRUE, dim |-> d, C |-> M!IsoC(d, Val(p, "Youngs Modulus"), Val(p, "Poissons Ratio")),
        a |-> [i \in 1..d |-> IF cubic THEN ii("a", i) ELSE Val(p, "Thermal Expansion Coefficient")],
        k |-> Sq(d, LAMBDA i, j : IF i # j THEN "0" ELSE IF cubic THEN ii("k", i) ELSE Val(p, "Thermal Conductivity Coefficient")),
        s |-> <<Val(p, "Reference Temperature"), Def(p, "Mass Density", "1"), Def(p, "Specific Heat", "1"), Def(p, "Temperature Scaling", "1"), Def(p, "Pressure Scaling", "1")>>]

(* ---- factories: which of the definitions of a material counts ---- *)
\* [w |-> "null" | "fail" | "model", m]
Factory(kind, d, name, p, eq) ==
  LET no(w) == [w |-> w, m |-> Bad]
      mk(r) == IF r.ok THEN [w |-> "model", m |-> r] ELSE no("fail")
  IN
  IF kind = "tm" THEN LET f == M!Factory("Thermoelastic", d, name, p) IN [w |-> f.w, m |-> f.mo]
  ELSE IF ~M!Has(p, "Material Models", "l") THEN no("null")
  ELSE LET q == M!ListOf(p, "Material Models") IN
    IF ~M!Has(q, name, "l") THEN no("fail")
    ELSE LET r == M!ListOf(q, name)  h(x) == M!Has(r, x, "l")  g(x) == M!ListOf(r, x) IN
      CASE kind = "elastic" ->
             IF h("Isotropic Linear Elastic") THEN mk(Isotropic(d, g("Isotropic Linear Elastic")))
             ELSE IF h("Cubic Linear Elastic") THEN mk(Cubic(d, g("Cubic Linear Elastic")))
             ELSE IF h("Custom Linear Elastic") THEN mk(Custom(d, g("Custom Linear Elastic"), eq))
             ELSE IF h("Orthotropic Linear Elastic") THEN mk(Orthotropic(d, g("Orthotropic Linear Elastic"))) ELSE no("null")
        [] kind = "electro" -> IF h("Isotropic Linear Electroelastic") THEN mk(Electro(d, g("Isotropic Linear Electroelastic"))) ELSE no("null")
        [] OTHER -> IF h("Isotropic Linear Thermoelastic") THEN mk(ThermoE(d, g("Isotropic Linear Thermoelastic"), FALSE))
                    ELSE IF h("Cubic Linear Thermoelastic") THEN mk(ThermoE(d, g("Cubic Linear Thermoelastic"), TRUE)) ELSE no("null")
\* the stability of an orthotropic material on the border of what is allowed
OnBorder(kind, d, name, p) ==
  LET q == M!ListOf(p, "Material Models")  r == M!ListOf(q, name)  o == "Orthotropic Linear Elastic" IN
  /\ kind = "elastic" /\ d > 1 /\ M!Has(p, "Material Models", "l") /\ M!Has(q, name, "l") /\ M!Has(r, o, "l")
  /\ ~\E x \in {"Isotropic Linear Elastic", "Cubic Linear Elastic", "Custom Linear Elastic"} : M!Has(r, x, "l")
  /\ (\A k \in OrthoKeys(d) : Has(M!ListOf(r, o), k)) /\ Positive(d, M!ListOf(r, o)) /\ Border(d, M!ListOf(r, o))

(* ---- responses ---- *)
Stress(C, e) == MVec(C, e)
LinStress(m, e) == Stress(m.C, VSub(e, m.ref))
Damped(m, e, v) == VAdd(LinStress(m, e), VScale(m.rb, Stress(m.C, v)))
EmStress(m, e, g) == VSub(Stress(m.C, e), VScale(m.alpha, MVec(MTrans(m.e), g)))
EmDisp(m, e, g) == VAdd(VScale(m.alpha, MVec(m.e, e)), VScale(RMul(m.alpha, m.alpha), MVec(m.k, g)))
TmProp(mo, w, nm, T) == LET f == M!Got(mo, IF M!Non(mo) THEN w \o "f" ELSE w \o "c", nm) IN M!Vals(f, T)
TmConst(mo, nm) == M!Got(mo, "sc", nm).c[1][1][1]
TmStrain(mo, T) == LET a == TmProp(mo, "t", "Thermal Expansivity", T) IN
  Now([k \in 1..NV(mo.dim) |-> IF k <= mo.dim THEN RMul(TmConst(mo, "Temperature Scaling"), RMul(a[k][k], RSub(T, TmConst(mo, "Reference Temperature")))) ELSE "0"])
TmStress(mo, e, T) == Stress(TmProp(mo, "v", "Elastic Stiffness", T), VSub(e, TmStrain(mo, T)))
TmFlux(mo, g, T) == LET s == TmConst(mo, "Temperature Scaling") IN VScale(RMul(s, s), MVec(TmProp(mo, "t", "Thermal Conductivity", T), g))
\* mixed form
Trace(d, s) == RSum([i \in 1..d |-> s[i]])
Deviator(d, s) == [k \in 1..NV(d) |-> IF k <= d THEN RSub(s[k], RDiv(Trace(d, s), "3")) ELSE s[k]]
BulkMod(d, C) == RDiv(RSum([i \in 1..d |-> C[1][i]]), d)
ShearMod(d, C) == RDiv(RSum([i \in 1..(NV(d) - d) |-> C[d + i][d + i]]), NV(d) - d)
Stabil(d, C, ps, vol, pg, ppg) == LET tau == RDiv(RPow(vol, "2/3"), RMul("2", ShearMod(d, C))) IN [i \in 1..d |-> RMul(RMul(ps, tau), RSub(RMul(ps, pg[i]), ppg[i]))]
VolFlux(d, C, ps, e, et, p) == RMul(ps, RSub(RSub(Trace(d, e), Trace(d, et)), RDiv(p, BulkMod(d, C))))
TeStrain(m, T) == [k \in 1..NV(m.dim) |-> IF k <= m.dim THEN RMul(RMul(m.s[4], m.a[k]), RSub(T, m.s[1])) ELSE "0"]

(* ------------------------------ judging ------------------------------------ *)
Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      chk(c, w) == IF ~e.exc /\ c THEN ok(s) ELSE bad(w)
      d == e.dim
      two(k, r0, Exp(_)) == Len(e.out.r[k]) = Len(r0) /\ \A c \in 1..Len(r0) :
             IF c \in Cells(e) THEN DVClose(e.out.r[k][c], e.out.p[k][c], Exp(c)) ELSE DVSame(e.out.r[k][c], e.out.p[k][c], r0[c])
      one(k, r0, Exp(_)) == Len(e.out.r[k]) = Len(r0) /\ \A c \in 1..Len(r0) :
             IF c \in Cells(e) THEN DClose(e.out.r[k][c], e.out.p[k][c], Exp(c)) ELSE DSame(e.out.r[k][c], e.out.p[k][c], r0[c])
  IN
  IF e.op # "make" /\ e.M \notin DOMAIN s THEN ok(s)       \* there is no such material
  ELSE
  CASE e.op = "make" ->
       LET f == Factory(e.kind, d, e.name, e.p, e.eq) IN
       IF OnBorder(e.kind, d, e.name, e.p) THEN ok(s)
       ELSE IF f.w = "null" THEN chk(e.out.null, "no definition, but a material was created")
       ELSE IF f.w = "fail" THEN (IF e.exc THEN ok(s) ELSE bad("an incomplete or unstable material was accepted"))
       ELSE IF e.exc THEN bad("a complete material was rejected")
       ELSE IF e.out.null THEN bad("no material was created")
       ELSE LET m == f.m
                good == CASE e.kind = "elastic" -> /\ MClose(e.out.C, m.C) /\ VClose(e.out.ref, m.ref)
                                                   /\ VClose(<<e.out.rho, e.out.ps, e.out.ra, e.out.rb>>, <<m.rho, m.ps, m.ra, m.rb>>)
                          [] e.kind = "electro" -> MClose(e.out.C, m.C) /\ MClose(e.out.e, m.e) /\ MClose(e.out.k, m.k) /\ RClose(e.out.alpha, m.alpha)
                          [] e.kind = "thermo" -> MClose(e.out.C, m.C) /\ VClose(e.out.a, m.a) /\ MClose(e.out.k, m.k) /\ VClose(e.out.s, m.s)
                          [] OTHER -> TRUE
            IN IF good THEN ok(Upd(s, e.M, m)) ELSE bad("the constants of the material are not those of its definition")
  [] e.op = "lstress" ->
       chk(CellsM(e, LAMBDA c : LET x == DV(e.e[c]) IN CASE e.what = "plain" -> Stress(s[e.M].C, x) [] e.what = "damped" -> Damped(s[e.M], x, DV(e.v[c])) [] OTHER -> LinStress(s[e.M], x)),
           "the stress is not stiffness times strain")
  [] e.op = "homog" -> chk(CellsM(e, LAMBDA c : VSub([k \in 1..NV(d) |-> s[e.M].C[e.col + 1][k]], Stress(s[e.M].C, DV(e.e[c])))), "wrong homogenised stress")
  [] e.op = "forcing" -> chk(CellsM(e, LAMBDA c : VSub(DV(e.r0[c]), [k \in 1..NV(d) |-> s[e.M].C[k][e.col + 1]])), "wrong cell forcing")
  [] e.op = "cstress" -> chk(\A c \in 1..Len(e.r0) : IF c \in Cells(e) THEN DMClose(e.out.r[c], e.out.p[c], [k \in 1..2 |-> Stress(s[e.M].C, DV(e.e[c][k]))])
                                                     ELSE DMSame(e.out.r[c], e.out.p[c], e.r0[c]), "wrong complex stress")
  [] e.op = "emkin" -> chk(/\ two(1, e.r0, LAMBDA c : EmStress(s[e.M], DV(e.e[c]), DV(e.g[c])))
                           /\ two(2, e.q0, LAMBDA c : EmDisp(s[e.M], DV(e.e[c]), DV(e.g[c]))), "wrong stress or electric displacement")
  [] e.op = "tmkin" -> chk(/\ two(1, e.r0, LAMBDA c : TmStress(s[e.M], DV(e.e[c]), D1(e.T[c])))
                           /\ two(2, e.q0, LAMBDA c : TmFlux(s[e.M], DV(e.g[c]), D1(e.T[c]))), "wrong thermal stress or flux")
  [] e.op = "mixed" ->
       LET m == s[e.M]  th == e.thermal  ps == IF th THEN m.s[5] ELSE m.ps
           et(c) == IF th THEN TeStrain(m, D1(e.T[c])) ELSE VZero(NV(d))
           p(c) == RMul(ps, D1(e.p[c]))
       IN chk(/\ two(1, e.r0, LAMBDA c : Deviator(d, Stress(m.C, VSub(DV(e.e[c]), et(c)))))
              /\ one(2, e.f0, LAMBDA c : VolFlux(d, m.C, ps, DV(e.e[c]), et(c), p(c)))
              /\ two(3, e.s0, LAMBDA c : Stabil(d, m.C, ps, D1(e.vol[c]), DV(e.pg[c]), DV(e.ppg[c])))
              /\ one(4, e.p, p)
              /\ IF th THEN two(5, e.q0, LAMBDA c : VScale(RMul(m.s[4], m.s[4]), MVec(m.k, DV(e.g[c])))) ELSE DMSame(e.out.r[5], e.out.p[5], e.q0),
              "wrong deviatoric stress, volume flux, stabilisation or flux")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
