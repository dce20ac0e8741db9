------------------------------- MODULE Interp -------------------------------
(* Interpolation from the nodes to a point and its adjoint, the terms of      *)
(* frequency-domain structural dynamics (real parts first, then imaginary     *)
(* parts, per node), basis functions and quadrature on the unit simplex.      *)
EXTENDS Dual, TLC

Dof(n, nd, i) == ((n - 1) * nd) + i
At(phi, u, nd, i) == RSum([n \in 1..Len(phi) |-> RMul(phi[n], u[Dof(n, nd, i)])])
Sc(e) == IF e.scale = "none" THEN "1" ELSE e.scale
Or0(x) == IF x = "none" THEN "0" ELSE x
NV(d) == CASE d = 1 -> 1 [] d = 2 -> 3 [] OTHER -> 6
\* r plus scale * phi_n * vol * value_i at the places of the field
Spread(phi, vol, val, nd, off, r, scale) ==
  [k \in 1..Len(r) |-> LET n == ((k - 1) \div nd) + 1  i == k - ((n - 1) * nd) - off IN
     IF i >= 1 /\ i <= Len(val) THEN RAdd(r[k], RMul(RMul(scale, phi[n]), RMul(val[i], vol))) ELSE r[k]]
\* i omega (a M + b K) applied to a complex vector, up to the factor omega: multiplication by -i turns (re, im) into (im, -re)
Damp(what, d, a, b, k, m) ==
  LET f(i) == RAdd(RMul(a, m[i]), RMul(b, k[i])) IN
  CASE what = "real" -> [i \in 1..(2 * d) |-> f(i)]
    [] what = "complex" -> [i \in 1..(2 * d) |-> IF i <= d THEN f(d + i) ELSE RNeg(f(i - d))]
    [] OTHER -> [i \in 1..(2 * d) |-> IF i <= d THEN RNeg(f(d + i)) ELSE f(i - d)]

(* ---- quadrature: exact for every monomial up to the degree ---- *)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Exps(d, q) == {f \in [1..d -> 0..q] : (CASE d = 1 -> f[1] [] d = 2 -> f[1] + f[2] [] OTHER -> f[1] + f[2] + f[3]) <= q}
Sum3(d, f) == CASE d = 1 -> f[1] [] d = 2 -> f[1] + f[2] [] OTHER -> f[1] + f[2] + f[3]
Prod3(d, F(_)) == CASE d = 1 -> F(1) [] d = 2 -> RMul(F(1), F(2)) [] OTHER -> RMul(F(1), RMul(F(2), F(3)))
Integral(d, f) == RDiv(Prod3(d, LAMBDA i : Fact(f[i])), Fact(d + Sum3(d, f)))
Rule(d, x, w, f) == RSum([p \in 1..Len(w) |-> RMul(w[p], Prod3(d, LAMBDA i : RIPow(x[p][i], f[i])))])
Exact(d, q, x, w) == \A f \in Exps(d, q) : RNear(RVal(Rule(d, x, w, f)), Integral(d, f), "1/100", "1/100000000000")
Inside(d, x) == \A p \in 1..Len(x) : (\A i \in 1..d : RLeq("0", x[p][i])) /\ RLeq(RSum(x[p]), "1")
Supported(d, q) == d \in 1..3 /\ q <= 3

(* ------------------------------ judging ------------------------------------ *)
Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      chk(c, w) == IF ~e.exc /\ c THEN ok(s) ELSE bad(w)
      \* the first m entries of an addressed row are Exp, the others stay
      lead(m, Exp(_)) == Len(e.out.r) = Len(e.r0) /\ \A c \in 1..Len(e.r0) : Len(e.out.r[c]) = Len(e.r0[c]) /\ \A k \in 1..Len(e.r0[c]) :
        IF c \in Cells(e) /\ k <= m THEN DClose(e.out.r[c][k], e.out.p[c][k], Exp(c)[k]) ELSE DSame(e.out.r[c][k], e.out.p[c][k], e.r0[c][k])
  IN
  CASE e.op = "interp1" -> chk(CellsV(e, LAMBDA c : At(e.phi, DV(e.u[c]), 1 + e.a, e.b + 1)), "wrong interpolated value")
  [] e.op = "interpv" -> chk(CellsM(e, LAMBDA c : [i \in 1..e.dim |-> At(e.phi, DV(e.u[c]), e.dim + e.a, e.b + i)]), "wrong interpolated vector")
  [] e.op = "values" -> chk(CellsM(e, LAMBDA c : [i \in 1..Len(e.r0[c]) |-> At(e.phi, DV(e.u[c]), Len(e.r0[c]), i)]), "wrong values at the point")
  [] e.op = "projv" -> chk(CellsM(e, LAMBDA c : Spread(e.phi, D1(e.vol[c]), DV(e.s[c]), e.dim + e.a, e.b, DV(e.r0[c]), Sc(e))), "wrong projection to the nodes")
  [] e.op = "proj1" -> chk(CellsM(e, LAMBDA c : Spread(e.phi, D1(e.vol[c]), <<D1(e.s[c])>>, 1 + e.a, e.b, DV(e.r0[c]), Sc(e))), "wrong projection to the nodes")
  [] e.op = "inertia" -> chk(CellsM(e, LAMBDA c : LET n == Len(e.s[c]) IN
                           Spread(e.phi, RMul(e.rho, D1(e.vol[c])), DV(e.s[c]), n, 0, [k \in 1..Len(e.r0[c]) |-> "0"], "1")), "wrong inertial forces")
  [] e.op = "damp" -> chk(lead(2 * e.dim, LAMBDA c : Damp(e.what, e.dim, Or0(e.mass), Or0(e.stiff), DV(e.k[c]), DV(e.m[c]))), "wrong damping forces")
  [] e.op = "cenergy" -> chk(CellsV(e, LAMBDA c : RSum([k \in 1..2 |-> RDot(DV(e.s[c][k]), DV(e.e[c][k]))])), "wrong elastic energy")
  [] e.op = "kenergy" -> chk(CellsV(e, LAMBDA c : RNeg(RMul(RMul(RMul(e.omega, e.omega), e.rho), RMul(D1(e.vol[c]), RDot(DV(e.s[c]), DV(e.s[c])))))), "wrong inertial energy")
  [] e.op = "dynres" -> chk(lead(2 * e.dim, LAMBDA c : LET k == DV(e.k[c])  q == DV(e.d[c])  m == DV(e.m[c])  r == DV(e.r0[c]) IN
                          [i \in 1..(2 * e.dim) |-> RAdd(r[i], RSub(RAdd(k[i], q[i]), RMul(e.w2, m[i])))]), "wrong residual")
  [] e.op = "frmisfit" -> chk(CellsV(e, LAMBDA c : LET z == VSub(DV(e.u[c]), e.x[c]) IN RDiv(RDot(z, z), "2")), "wrong misfit")
  [] e.op = "tetrule" ->
       LET d == e.dim IN
       chk(/\ e.out.n = 1 /\ Len(e.out.x) = d /\ Len(e.out.phi) = d + 1
           /\ Exact(d, 1, <<e.out.x>>, <<e.out.w>>)
           /\ \A i \in 1..d : RClose(e.out.phi[i + 1], e.out.x[i])
           /\ RClose(e.out.phi[1], RSub("1", RSum(e.out.x))), "the one-point rule is wrong")
  [] e.op = "basis" ->
       LET d == e.dim  n == Len(e.x) IN
       chk(/\ e.out.card = d + 1
           /\ AEq(<<e.out.ref>>, <<[k \in 1..(d + 1) |-> [i \in 1..d |-> IF k = i THEN "1" ELSE "0"]]>>)
           /\ \A p \in 1..n : /\ \A k \in 1..d : REq(e.out.v[k][p], e.x[p][k])
                              /\ RClose(e.out.v[d + 1][p], RSub("1", RSum(e.x[p])))
                              /\ \A k \in 1..(d + 1), i \in 1..d : REq(e.out.g[k][p][i], IF k = d + 1 THEN "-1" ELSE IF k = i THEN "1" ELSE "0"),
           "the basis functions, their gradients or their nodes are wrong")
  [] e.op = "cub" ->
       IF ~Supported(e.dim, e.degree) \/ e.dn # 0 \/ e.dd # 0 \/ e.dw # 0
       THEN IF e.exc THEN ok(s) ELSE bad("an unsupported rule or containers of the wrong size were accepted")
       ELSE chk(/\ e.out.n = Len(e.out.w) /\ Len(e.out.x) = e.out.n
                /\ Inside(e.dim, e.out.x) /\ Exact(e.dim, IF e.degree < 0 THEN 0 ELSE e.degree, e.out.x, e.out.w), "the quadrature rule is not exact to its degree")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
