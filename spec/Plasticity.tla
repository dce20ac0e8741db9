----------------------------- MODULE Plasticity -----------------------------
(* J2 plasticity with kinematic hardening at a material point, and the        *)
(* strains, stresses, work and moduli around it.  A local state of a cell is  *)
(* <<accumulated plastic strain, multiplier>> \o plastic strain \o backstress *)
(* where a tensor is stored as (11, 22, 12, 33) in plane strain, (11, 22, 33, *)
(* 23, 13, 12) in space; strains store twice the shear, stresses once.        *)
EXTENDS Dual, TLC

NT(dim) == CASE dim = 1 -> 1 [] dim = 2 -> 4 [] OTHER -> 6
Shear(dim) == CASE dim = 1 -> {} [] dim = 2 -> {3} [] OTHER -> {4, 5, 6}
PsOf(dim, loc) == [i \in 1..NT(dim) |-> loc[2 + i]]
BsOf(dim, loc) == [i \in 1..NT(dim) |-> loc[2 + NT(dim) + i]]
Mult(loc) == loc[2]
PsRate(dim, g, N) == [i \in 1..NT(dim) |-> RMul(RMul(RSqrt("3/2"), g), IF i \in Shear(dim) THEN RMul("2", N[i]) ELSE N[i])]
BsRate(dim, g, H, N) == [i \in 1..NT(dim) |-> RMul(RMul(RSqrt("2/3"), g), RMul(H, N[i]))]
Pack(dim, loc, ps, bs) == <<loc[1], loc[2]>> \o ps \o bs
PlasticStep(dim, prev, cur, N, H) ==
  Pack(dim, cur, VAdd(PsOf(dim, prev), PsRate(dim, Mult(cur), N)), VAdd(BsOf(dim, prev), BsRate(dim, Mult(cur), H, N)))
ElasticStep(dim, prev, cur) == Pack(dim, cur, PsOf(dim, prev), BsOf(dim, prev))
\* relative stress, its norm, and the direction of flow
Rel(dim, dev, loc) == VSub(dev, BsOf(dim, loc))
Contract(dim, a, b) == RSum([i \in 1..NT(dim) |-> RMul(IF i \in Shear(dim) THEN "2" ELSE "1", RMul(a[i], b[i]))])
RelNorm(dim, dev, loc) == LET r == Rel(dim, dev, loc) IN RSqrt(Contract(dim, r, r))
Flow(dim, dev, loc) == LET r == Rel(dim, dev, loc)  n == RelNorm(dim, dev, loc) IN [i \in 1..NT(dim) |-> RDiv(r[i], n)]
\* residual equations; r is what the residual held
Residual(what, dim, cur, prev, N, H, r) ==
  LET ps == PsOf(dim, r)  bs == BsOf(dim, r)
      dps == VSub(PsOf(dim, cur), PsOf(dim, prev))  dbs == VSub(BsOf(dim, cur), BsOf(dim, prev)) IN
  CASE what = "psP" -> Pack(dim, r, VSub(dps, PsRate(dim, Mult(cur), N)), bs)
    [] what = "bsP" -> Pack(dim, r, ps, VSub(dbs, BsRate(dim, Mult(cur), H, N)))
    [] what = "psE" -> Pack(dim, r, dps, bs)
    [] what = "bsE" -> Pack(dim, r, ps, dbs)

(* ---- strains and stresses ---- *)
Trace(dim, e) == RSum([i \in 1..NT(dim) |-> IF i \in Shear(dim) THEN "0" ELSE e[i]])
Dev(dim, e) == LET t == RDiv(Trace(dim, e), "3") IN [i \in 1..NT(dim) |-> IF i \in Shear(dim) THEN e[i] ELSE RSub(e[i], t)]
DevStress(dim, G, e) == LET d == Dev(dim, e) IN [i \in 1..NT(dim) |-> RMul(IF i \in Shear(dim) THEN G ELSE RMul("2", G), d[i])]
Cauchy(dim, K, G, e) == LET d == DevStress(dim, G, e)  p == RMul(K, Trace(dim, e)) IN
  [i \in 1..NT(dim) |-> IF i \in Shear(dim) THEN d[i] ELSE RAdd(d[i], p)]
\* what the code is known to do instead (known findings F11 and F12)
CauchyKnown(dim, K, G, e) ==
  IF dim = 3 THEN LET tr == RAdd(e[1], RAdd(e[2], e[4]))  t == RDiv(tr, "3") IN
    [i \in 1..6 |-> IF i > 3 THEN RMul(G, e[i]) ELSE RAdd(RMul(RMul("2", G), RSub(e[i], t)), RMul(K, tr))]
  ELSE IF dim = 1 THEN LET t == RDiv(e[1], "3") IN <<RAdd(RMul(RMul("2", G), RSub(e[1], t)), RMul(K, t))>>
  ELSE Cauchy(dim, K, G, e)
\* tensor components in both arguments
Work(dim, G, K, e, d) == LET t == Trace(dim, e) IN RAdd(RMul(G, Contract(dim, d, d)), RMul(RDiv(K, "2"), RMul(t, t)))
\* global degrees of freedom per node: displacements, temperature, pressure
Temp(dim, glob, basis, scale) == RMul(scale, RSum([n \in 1..(dim + 1) |-> RMul(glob[((n - 1) * (dim + 2)) + dim + 1], basis[n])]))
ElStrain(dim, thermal, alpha, Tref, scale, glob, basis, e, loc) ==
  LET p == VSub(e, PsOf(dim, loc)) IN
  IF ~thermal THEN p
  ELSE LET t == RMul(alpha, RSub(Temp(dim, glob, basis, scale), Tref)) IN [i \in 1..NT(dim) |-> IF i \in Shear(dim) THEN p[i] ELSE RSub(p[i], t)]
Stab(dim, scale, G, vol, grad, proj) ==
  LET tau == RDiv(RPow(vol, "2/3"), RMul("2", G)) IN [i \in 1..dim |-> RMul(RMul(scale, tau), RSub(RMul(scale, grad[i]), proj[i]))]
ShearMod(E, v) == RDiv(E, RMul("2", RAdd("1", v)))
BulkMod(E, v) == RDiv(E, RMul("3", RSub("1", RMul("2", v))))
Has(p, k, t) == k \in DOMAIN p /\ p[k].t = t

(* ------------------------------ judging ------------------------------------ *)
Upd(f, k, x) == (k :> x) @@ f
Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      chk(c, w) == IF ~e.exc /\ c THEN ok(s) ELSE bad(w)
      step(new, w) == IF ~e.exc /\ MClose(e.out.r, new) THEN ok(Upd(s, e.cur, new)) ELSE bad(w)
  IN
  CASE e.op = "state" -> ok(Upd(s, e.S, e.rows))
  [] e.op = "advance" -> ok(Upd(s, e.prev, s[e.cur]))
  [] e.op = "gamma" -> ok(Upd(s, e.S, [c \in 1..Len(s[e.S]) |-> [s[e.S][c] EXCEPT ![2] = e.g[c]]]))
  [] e.op = "plastic" -> step([c \in 1..Len(s[e.cur]) |-> IF c \in Cells(e) THEN PlasticStep(e.dim, s[e.prev][c], s[e.cur][c], s[e.N][c], e.H) ELSE s[e.cur][c]],
                              "the plastic step does not follow the flow and hardening rules")
  [] e.op = "elastic" -> step([c \in 1..Len(s[e.cur]) |-> IF c \in Cells(e) THEN ElasticStep(e.dim, s[e.prev][c], s[e.cur][c]) ELSE s[e.cur][c]],
                              "an elastic step changes nothing")
  [] e.op = "flow" ->
       LET N == [c \in 1..Len(e.dev) |-> Flow(e.dim, e.dev[c], s[e.cur][c])] IN
       IF e.exc \/ ~VClose(e.out.n, [c \in 1..Len(e.dev) |-> RelNorm(e.dim, e.dev[c], s[e.cur][c])]) \/ ~MClose(e.out.N, N)
       THEN bad("wrong direction of plastic flow") ELSE ok(Upd(s, e.N, N))
  [] e.op = "resid" ->
       chk(MClose(e.out.r, [c \in 1..Len(s[e.cur]) |-> Residual(e.what, e.dim, s[e.cur][c], s[e.prev][c], s[e.N][c], e.H, [i \in 1..Len(s[e.cur][c]) |-> "77"])]),
           "the residual of the stored state is wrong")
  [] e.op = "residual" -> chk(CellsM(e, LAMBDA c : Residual(e.what, e.dim, DV(e.loc[c]), DV(e.prev[c]), DV(e.N[c]), D1(e.H), DV(e.r0[c]))), "the residual is wrong")
  [] e.op = "normal" ->
       chk(\A c \in 1..Len(e.dev) : LET o == e.out.r[1][c]  p == e.out.p[1][c]  n == RelNorm(e.dim, DV(e.dev[c]), DV(e.loc[c])) IN
             IF c \notin Cells(e) THEN DVSame(o, p, e.N0[c]) /\ DSame(e.out.r[2][c], e.out.p[2][c], e.n0[c])
             ELSE IF RIsZero(n) THEN RClose(e.out.p[2][c], "0")
             ELSE DVClose(o, p, Flow(e.dim, DV(e.dev[c]), DV(e.loc[c]))) /\ DClose(e.out.r[2][c], e.out.p[2][c], n),
           "wrong direction of plastic flow")
  [] e.op = "misfit" -> chk(CellsM(e, LAMBDA c : VSub(PsOf(e.dim, DV(e.a[c])), PsOf(e.dim, DV(e.b[c])))), "wrong plastic strain misfit")
  [] e.op = "get" -> chk(CASE e.what = "accum" -> CellsV(e, LAMBDA c : D1(e.loc[c][1]))
                           [] e.what = "mult" -> CellsV(e, LAMBDA c : D1(e.loc[c][2]))
                           [] e.what = "strain" -> CellsM(e, LAMBDA c : PsOf(e.dim, DV(e.loc[c])))
                           [] OTHER -> CellsM(e, LAMBDA c : BsOf(e.dim, DV(e.loc[c]))), "the wrong part of the local state was returned")
  [] e.op = "devstrain" -> chk(CellsM(e, LAMBDA c : Dev(e.dim, DV(e.e[c]))), "wrong deviatoric strain")
  [] e.op = "devstress" -> chk(CellsM(e, LAMBDA c : DevStress(e.dim, D1(e.G), DV(e.e[c]))), "wrong deviatoric stress")
  [] e.op = "cauchy" ->
       IF ~e.exc /\ CellsM(e, LAMBDA c : Cauchy(e.dim, D1(e.K), D1(e.G), DV(e.e[c]))) THEN ok(s)
       ELSE IF ~e.exc /\ e.dim \in {1, 3} /\ CellsM(e, LAMBDA c : CauchyKnown(e.dim, D1(e.K), D1(e.G), DV(e.e[c])))
            THEN [v |-> "known", why |-> IF e.dim = 3 THEN "F11" ELSE "F12", st |-> s]
       ELSE bad("wrong Cauchy stress")
  [] e.op = "work" -> chk(CellsV(e, LAMBDA c : Work(e.dim, D1(e.G), D1(e.K), DV(e.e[c]), DV(e.dev[c]))), "wrong elastic work")
  [] e.op = "estrain" -> chk(CellsM(e, LAMBDA c : ElStrain(e.dim, e.thermal, e.alpha, e.Tref, e.scale, DV(e.glob[c]), e.basis, DV(e.e[c]), DV(e.loc[c]))), "wrong elastic strain")
  [] e.op = "stab" -> chk(CellsM(e, LAMBDA c : Stab(e.dim, e.scale, e.G, D1(e.vol[c]), DV(e.grad[c]), DV(e.proj[c]))), "wrong stabilization")
  [] e.op = "moduli" -> chk(RClose(e.out.G, ShearMod(e.E, e.v)) /\ RClose(e.out.K, BulkMod(e.E, e.v)), "wrong modulus")
  [] e.op = "modlist" ->
       LET m == IF Has(e.p, "Material Model", "l") THEN e.p["Material Model"].l ELSE <<>>
           q == IF Has(m, "Isotropic Linear Elastic", "l") THEN m["Isotropic Linear Elastic"].l ELSE <<>>
       IN IF ~Has(q, "Youngs Modulus", "d") \/ ~Has(q, "Poissons Ratio", "d")
          THEN IF e.exc THEN ok(s) ELSE bad("incomplete elastic constants were accepted")
          ELSE LET E == q["Youngs Modulus"].v  v == q["Poissons Ratio"].v IN
               chk(RClose(e.out.r, IF e.what = "K" THEN BulkMod(E, v) ELSE ShearMod(E, v)), "wrong modulus")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
