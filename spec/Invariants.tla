----------------------------- MODULE Invariants -----------------------------
(* Scalar invariants of stresses and strains: von Mises stress, principal     *)
(* values, tensile energy, contractions, and the norms that aggregate them.   *)
(* Tensors are stored by Voigt components: 11 | 11, 22, 12 | 11, 22, 33, 23,  *)
(* 13, 12; the contraction of plane tensors stores 11, 22, 12, 33.            *)
EXTENDS Dual, TLC

NV(dim) == CASE dim = 1 -> 1 [] dim = 2 -> 3 [] OTHER -> 6
Sq(x) == RMul(x, x)
\* the symmetric 3 x 3 tensor of Voigt components; shear is divided by f
Sym(dim, v, f) ==
  LET z == "0"  s(x) == RDiv(x, f) IN
  CASE dim = 1 -> <<<<v[1], z, z>>, <<z, z, z>>, <<z, z, z>>>>
    [] dim = 2 -> <<<<v[1], s(v[3]), z>>, <<s(v[3]), v[2], z>>, <<z, z, z>>>>
    [] OTHER   -> <<<<v[1], s(v[6]), s(v[5])>>, <<s(v[6]), v[2], s(v[4])>>, <<s(v[5]), s(v[4]), v[3]>>>>
Tr(A) == RSum([i \in 1..3 |-> A[i][i]])
RECURSIVE MPow(_, _)
MPow(A, k) == IF k = 0 THEN MIdent(3) ELSE MMul(A, MPow(A, k - 1))
PowerTrace(A, k) == Tr(MPow(A, k))          \* the sum of the k-th powers of the principal values
Mises(dim, v) ==
  LET A == Sym(dim, v, "1")  t == RDiv(Tr(A), "3")
      D == Now([i \in 1..3 |-> Now([j \in 1..3 |-> IF i = j THEN RSub(A[i][i], t) ELSE A[i][j]])])
  IN RSqrt(RMul("3/2", PowerTrace(D, 2)))
Tensile(dim, p, lam, mu) ==
  LET pos(x) == IF RLeq("0", RVal(x)) THEN x ELSE "0" IN
  RAdd(RMul(mu, RSum([i \in 1..dim |-> Sq(pos(p[i]))])), RMul(RDiv(lam, "2"), Sq(pos(RSum([i \in 1..dim |-> p[i]])))))
DoubleDot(dim, a, b) ==
  RSum([i \in 1..Len(a) |-> RMul(IF i \in (CASE dim = 1 -> {} [] dim = 2 -> {3} [] OTHER -> {4, 5, 6}) THEN "2" ELSE "1", RMul(a[i], b[i]))])
Norm2(v) == RSum([i \in 1..Len(v) |-> Sq(v[i])])
\* x^p for x >= 0, exactly where possible
Power(x, p) == IF RIsInt(p) THEN RIPow(x, RTrunc(p)) ELSE IF RIsInt(RMul(p, "2")) THEN RIPow(RSqrt(x), RTrunc(RMul(p, "2"))) ELSE RPow(x, p)
PNorm(v, p, vol) == RMul(Power(Norm2(v), RDiv(p, "2")), vol)
Weighted(v, p, vol, w, ref) == RMul(Power(RDiv(RSqrt(RMul(w, Norm2(v))), ref), p), vol)

(* Barlat's Yld2004-18p measure: two linear maps of the deviator, and the     *)
(* m-th powers of the differences of their principal values.  The double sum  *)
(* is a symmetric function of the principal values, so it is a polynomial in  *)
(* the traces of powers: no principal value is needed.                        *)
DevMap == [i \in 1..6 |-> [j \in 1..6 |-> IF i > 3 \/ j > 3 THEN (IF i = j THEN "1" ELSE "0") ELSE IF i = j THEN "2/3" ELSE "-1/3"]]
Full(dim, v) == CASE dim = 1 -> <<v[1], "0", "0", "0", "0", "0">> [] dim = 2 -> <<v[1], v[2], "0", "0", "0", v[3]>> [] OTHER -> v
Binom(m, k) == CASE m = 2 -> <<1, 2, 1>>[k + 1] [] m = 4 -> <<1, 4, 6, 4, 1>>[k + 1] [] m = 6 -> <<1, 6, 15, 20, 15, 6, 1>>[k + 1]
                 [] OTHER -> <<1, 8, 28, 56, 70, 56, 28, 8, 1>>[k + 1]
BarlatSum(dim, v, T1, T2, m) ==
  LET s == MVec(DevMap, Full(dim, v))
      A == Now(Sym(3, MVec(T1, s), "1"))  B == Now(Sym(3, MVec(T2, s), "1"))
  IN RSum([k \in 1..(m + 1) |-> RMul(RMul(Binom(m, k - 1), IF k % 2 = 1 THEN "1" ELSE "-1"), RMul(PowerTrace(A, m + 1 - k), PowerTrace(B, k - 1)))])
Barlat(dim, v, p, vol, T1, T2, m, ref) == RMul(Power(RDiv(RPow(RDiv(BarlatSum(dim, v, T1, T2, m), "4"), RDiv("1", m)), ref), p), vol)

(* -------------------- what an input list selects --------------------------- *)
Has(p, k, t) == k \in DOMAIN p /\ p[k].t = t
Def(p, k, d) == IF Has(p, k, "d") THEN p[k].v ELSE d
NormKind(p) == IF ~Has(p, "Normalize", "l") THEN "p"
               ELSE LET n == p["Normalize"].l IN IF ~Has(n, "Type", "s") THEN "none"
               ELSE IF n["Type"].s = "Barlat" THEN "barlat" ELSE IF n["Type"].s = "Scalar" THEN "scalar" ELSE "p"
Sub(p, k) == LET n == p["Normalize"].l IN IF Has(n, k, "l") THEN n[k].l ELSE <<>>
Map(p, k) == [i \in 1..6 |-> p[k \o ToString(i - 1)].a]
Complete(p) == /\ Has(p, "Exponent", "d")
               /\ NormKind(p) # "none"
               /\ NormKind(p) = "barlat" => \A k \in {"T1", "T2"} : \A i \in 0..5 : Has(Sub(p, "Barlat"), k \o ToString(i), "a")
ListNorm(dim, p, v, vol) ==
  LET x == p["Exponent"].v IN
  CASE NormKind(p) = "p" -> PNorm(v, x, vol)
    [] NormKind(p) = "scalar" -> LET q == Sub(p, "Scalar") IN Weighted(v, x, vol, Def(q, "Scalar Product Weight", "1"), Def(q, "Reference Weight", "1"))
    [] OTHER -> LET q == Sub(p, "Barlat") IN
                Barlat(dim, v, x, vol, Map(q, "T1"), Map(q, "T2"), IF Has(q, "Barlat Exponent", "i") THEN q["Barlat Exponent"].i ELSE 6, Def(q, "Reference Weight", "1"))

(* ------------------------------ judging ------------------------------------ *)
\* like CellsV, without the derivative where the expected value is zero (a norm has none there)
NormCells(e, Exp(_)) == Len(e.out.r) = Len(e.r0) /\ \A c \in 1..Len(e.r0) :
  IF c \notin Cells(e) THEN DSame(e.out.r[c], e.out.p[c], e.r0[c])
  ELSE LET x == Exp(c) IN IF RIsZero(RVal(x)) THEN DPlain(e.out.r[c], e.out.p[c], x) ELSE DClose(e.out.r[c], e.out.p[c], x)
\* principal values, in any order, up to what the number of sweeps guarantees
PrincipalOk(e, c, tol) ==
  LET d == e.dim
      A == Sym(d, DV(e.v[c]), IF e.strain THEN "2" ELSE "1")
      n == RSqrt(RVal(PowerTrace(A, 2)))
      L == [i \in 1..d |-> D1(e.out.r[c][i])]
      nd == RMaxAbs([i \in 1..Len(e.v[c]) |-> e.v[c][i][2]])
  IN /\ Len(e.out.r[c]) = d
     /\ \A i \in 1..d : RNear(e.out.p[c][i], e.out.r[c][i][1], n, "1/1000000000")
     /\ \A k \in 1..d : LET got == RSum([i \in 1..d |-> RIPow(L[i], k)])  want == PowerTrace(A, k)  t == IF k = 1 THEN "1/1000000000" ELSE tol IN
          /\ RNear(RVal(got), RVal(want), RIPow(n, k), t)
          /\ RNear(RDer(got, 1), RDer(want, 1), RMul(RIPow(n, k - 1), nd), RMul(IF d = 3 /\ k > 1 THEN "100" ELSE "1", t))
Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      chk(c, w) == IF ~e.exc /\ c THEN ok(s) ELSE bad(w)
  IN
  CASE e.op = "mises" -> chk(NormCells(e, LAMBDA c : IF e.dim # 1 THEN Mises(e.dim, DV(e.v[c]))
                                                    ELSE IF RLt(RMul(e.out.p[c], e.v[c][1][1]), "0") THEN RNeg(D1(e.v[c][1])) ELSE D1(e.v[c][1])), "wrong von Mises stress")
  [] e.op = "principal" ->
       chk(/\ Len(e.out.r) = Len(e.v)
           /\ \A c \in 1..Len(e.v) : IF c \notin Cells(e) THEN DVSame(e.out.r[c], e.out.p[c], e.r0[c])
                ELSE PrincipalOk(e, c, IF e.dim = 3 /\ e.sweeps < 16 THEN "1/20000" ELSE "1/1000000000"), "these are not the principal values")
  [] e.op = "tensile" -> chk(CellsV(e, LAMBDA c : Tensile(e.dim, DV(e.v[c]), e.lam, e.mu)), "wrong tensile energy density")
  [] e.op = "ddot" -> chk(CellsV(e, LAMBDA c : DoubleDot(e.dim, DV(e.a[c]), DV(e.b[c]))), "wrong contraction")
  [] e.op = "dot" -> chk(CellsV(e, LAMBDA c : RDot(DV(e.a[c]), DV(e.b[c]))), "wrong product")
  [] e.op = "vpnorm" -> chk(NormCells(e, LAMBDA c : PNorm(DV(e.v[c]), e.p, D1(e.vol[c]))), "wrong p-norm")
  [] e.op = "norm" ->
       IF ~Complete(e.p) THEN IF e.exc THEN ok(s) ELSE bad("an incomplete norm was accepted")
       ELSE LET x == e.p["Exponent"].v
                u == [c \in 1..Len(e.v) |-> ListNorm(e.dim, e.p, DV(e.v[c]), D1(e.vol[c]))]
                total == RSum([c \in 1..Len(e.v) |-> RVal(u[c])])
                scale == RDiv(RPow(e.total, RDiv(RSub("1", x), x)), x)
            IN chk(/\ NormCells(e, LAMBDA c : u[c])
                   /\ RClose(e.out.root, RPow(e.total, RDiv("1", x)))
                   /\ RVClose(e.out.scaled, [i \in 1..Len(e.grad) |-> RMul(e.grad[i], scale)]), "wrong norm of the tensor field")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
