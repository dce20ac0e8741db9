------------------------------- MODULE Kinem --------------------------------
(* Kinematics of linear simplices and their adjoints.  A cell of dimension d  *)
(* has d + 1 nodes; its state lists the degrees of freedom node by node; B is *)
(* the table of basis gradients (node, direction).  A strain stores normal    *)
(* components and then twice the shear (23, 13, 12); a stress the same        *)
(* places, shear once.                                                        *)
EXTENDS Dual, TLC

NV(d) == CASE d = 1 -> 1 [] d = 2 -> 3 [] OTHER -> 6
\* the pair of directions of a Voigt component, and the component of a pair
Dirs(d, k) == IF k <= d THEN <<k, k>> ELSE IF d = 2 THEN <<1, 2>> ELSE CASE k = 4 -> <<2, 3>> [] k = 5 -> <<1, 3>> [] OTHER -> <<1, 2>>
Comp(d, i, j) == CHOOSE k \in 1..NV(d) : Dirs(d, k) = <<i, j>> \/ Dirs(d, k) = <<j, i>>
Dof(n, nd, i) == ((n - 1) * nd) + i
Grad(d, u, nd, off, B) == Now([i \in 1..d |-> RSum([n \in 1..(d + 1) |-> RMul(u[Dof(n, nd, off + 1)], B[n][i])])])
Deriv(d, u, nd, off, B, i, j) == RSum([n \in 1..(d + 1) |-> RMul(u[Dof(n, nd, off + i)], B[n][j])])
Strain(d, u, nd, off, B) ==
  Now([k \in 1..NV(d) |-> LET p == Dirs(d, k) IN
     IF p[1] = p[2] THEN Deriv(d, u, nd, off, B, p[1], p[1])
     ELSE RAdd(Deriv(d, u, nd, off, B, p[1], p[2]), Deriv(d, u, nd, off, B, p[2], p[1]))])
\* contributions to node n, direction i
StressForce(d, s, B, vol, n, i) == RMul(vol, RSum([j \in 1..d |-> RMul(s[Comp(d, i, j)], B[n][j])]))
FluxForce(d, q, B, vol, n) == RMul(vol, RSum([j \in 1..d |-> RMul(q[j], B[n][j])]))
PressForce(p, B, vol, n, i) == RMul(vol, RMul(p, B[n][i]))
Add(d, nd, off, m, r, F(_, _), scale) ==
  [k \in 1..Len(r) |-> LET n == ((k - 1) \div nd) + 1  i == k - ((n - 1) * nd) - off IN
     IF i >= 1 /\ i <= m THEN RAdd(r[k], RMul(scale, F(n, i))) ELSE r[k]]
Sc(e) == IF e.scale = "none" THEN "1" ELSE e.scale
Seg(s, a, n) == [i \in 1..n |-> s[a + i]]

(* ------------------------------ judging ------------------------------------ *)
Ndof(e) == CASE e.what \in {"stab", "tm", "em"} -> e.dim + 1 [] OTHER -> e.dim + 2
Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      chk(c, w) == IF ~e.exc /\ c THEN ok(s) ELSE bad(w)
      d == e.dim
  IN
  CASE e.op = "kin" ->
       LET m(k, r0, Exp(_)) == Len(e.out.r[k]) = Len(r0) /\ \A c \in 1..Len(r0) :
             IF c \in Cells(e) THEN DVClose(e.out.r[k][c], e.out.p[k][c], Exp(c)) ELSE DVSame(e.out.r[k][c], e.out.p[k][c], r0[c])
           u(c) == DV(e.u[c])  B(c) == DM(e.B[c])  nd == Ndof(e)
           neg(x) == [i \in 1..Len(x) |-> RNeg(x[i])]
       IN chk(/\ m(1, e.e0, LAMBDA c : Strain(d, u(c), nd, 0, B(c)))
              /\ m(2, e.g0, LAMBDA c : IF e.what = "em" THEN neg(Grad(d, u(c), nd, d, B(c))) ELSE Grad(d, u(c), nd, d, B(c)))
              /\ IF e.what = "stabtm" THEN m(3, e.h0, LAMBDA c : Grad(d, u(c), nd, d + 1, B(c)))
                 ELSE DMSame(e.out.r[3], e.out.p[3], e.h0), "the strain or the gradients of the state are wrong")
  [] e.op = "cstrain" ->
       chk(\A c \in 1..Len(e.e0) : IF c \notin Cells(e) THEN DMSame(e.out.r[c], e.out.p[c], e.e0[c])
             ELSE DMClose(e.out.r[c], e.out.p[c], [k \in 1..2 |-> Strain(d, DV(e.u[c]), (2 * d) + e.a, (k - 1) * d, DM(e.B[c]))]), "wrong complex strain")
  [] e.op = "cdiv" ->
       chk(CellsM(e, LAMBDA c : [k \in 1..Len(e.r0[c]) |->
             LET w == (2 * d) + e.a  n == ((k - 1) \div w) + 1  q == k - ((n - 1) * w)  z == IF q > d THEN 2 ELSE 1  i == q - ((z - 1) * d)
             IN IF q > 2 * d THEN D1(e.r0[c][k]) ELSE StressForce(d, DV(e.s[c][z]), DM(e.B[c]), D1(e.vol[c]), n, i)]), "wrong divergence of the complex stress")
  [] e.op = "sdiv" ->
       chk(CellsM(e, LAMBDA c : LET B == DM(e.B[c])  t == DV(e.s[c])  v == D1(e.vol[c]) IN
             Add(d, d + e.a, e.b, d, DV(e.r0[c]), LAMBDA n, i : StressForce(d, t, B, v, n, i), Sc(e))), "wrong divergence of the stress")
  [] e.op = "pdiv" ->
       chk(CellsM(e, LAMBDA c : LET B == DM(e.B[c])  p == D1(e.s[c])  v == D1(e.vol[c]) IN
             Add(d, d + e.a, e.b, d, DV(e.r0[c]), LAMBDA n, i : PressForce(p, B, v, n, i), Sc(e))), "wrong divergence of the pressure")
  [] e.op = "fdiv" ->
       chk(CellsM(e, LAMBDA c : LET B == DM(e.B[c])  q == DV(e.s[c])  v == D1(e.vol[c]) IN
             Add(d, 1 + e.a, e.b, 1, DV(e.r0[c]), LAMBDA n, i : FluxForce(d, q, B, v, n), Sc(e))), "wrong divergence of the flux")
  [] e.op = "ediv" -> chk(CellsV(e, LAMBDA c : RSum(Seg(DV(e.e[c]), 0, d))), "the volume change is the sum of the normal strains")
  [] e.op = "pgrad" -> chk(CellsM(e, LAMBDA c : VScale(Sc(e), Grad(d, DV(e.u[c]), 1, 0, DM(e.B[c])))), "wrong pressure gradient")
  [] e.op = "voigt" ->
       chk(/\ Len(e.out.I) = NV(d) /\ Len(e.out.J) = NV(d)
           /\ \A k \in 1..NV(d) : {e.out.I[k] + 1, e.out.J[k] + 1} = {Dirs(d, k)[1], Dirs(d, k)[2]}, "the Voigt map names the wrong directions")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
