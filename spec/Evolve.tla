------------------------------- MODULE Evolve -------------------------------
(* Quantities that evolve: the norms of a Newton-Raphson solve, a motion under *)
(* a time integrator, the chamber of a rocket, and saved states.  State: a map *)
(* from names to records.                                                      *)
EXTENDS Dual, TLC, Sequences, Integers

Pi == "3.14159265358979323846264338327950288"
Max == "0x1.fffffffffffffp+1023"
Upd(f, k, x) == (k :> x) @@ f
Is(p, k, t) == k \in DOMAIN p /\ p[k].t = t

(* ---- Newton-Raphson ---- *)
NewNR == [cur |-> Max, ref |-> Max, meas |-> Max, it |-> 0, stop |-> 0, what |-> 1, write |-> TRUE]
Measure(n, what) ==
  IF n.it = 0 THEN [n EXCEPT !.ref = n.cur]
  ELSE [n EXCEPT !.meas = LET d == RAbs(RSub(n.ref, n.cur)) IN IF what = "abs" THEN d ELSE IF RLt(RMul(RAbs(n.cur), Max), d) THEN "nan" ELSE RDiv(d, RAbs(n.cur)), !.ref = n.cur]
SameNR(o, n) == /\ (RFin(n.meas) => RClose(o.meas, n.meas)) /\ o.it = n.it /\ o.stop = n.stop /\ o.what = n.what /\ o.write = n.write
                /\ \A f \in {"cur", "ref"} : IF RFin(n[f]) THEN REq(o[f], n[f]) ELSE ~RFin(o[f])
Lower == <<"a", "b", "d", "e", "i", "l", "m", "n", "o", "r", "s", "t", "u", "v", "x", "z">>
Upper1(c) == LET cap == <<"A", "B", "D", "E", "I", "L", "M", "N", "O", "R", "S", "T", "U", "V", "X", "Z">>
                 at == {i \in 1..Len(Lower) : Lower[i] = c} IN IF at = {} THEN c ELSE cap[CHOOSE i \in at : TRUE]
RECURSIVE Upper(_)
Upper(cs) == IF cs = <<>> THEN "" ELSE Upper1(Head(cs)) \o Upper(Tail(cs))
\* 0: not a criterion
Criterion(t) == IF t = "ABSOLUTE RESIDUAL NORM" THEN 1 ELSE IF t = "RELATIVE RESIDUAL NORM" THEN 2 ELSE 0
StopKey == <<"none", "max", "measure", "current", "nan", "undef">>

(* ---- time integrators: residual of the velocity and of the acceleration ---- *)
\* the next velocity and acceleration of a motion now at (u, v, a) that moves to w in a step d
NMacc(t, w, u, v, a, d) == RDiv(RSub(w, RSum(<<u, RMul(d, v), RMul(RMul(RMul(d, d), RSub("1/2", t.beta)), a)>>)), RMul(t.beta, RMul(d, d)))
NMvel(t, w, u, v, a, d) == RAdd(v, RMul(d, RAdd(RMul(RSub("1", t.gamma), a), RMul(t.gamma, NMacc(t, w, u, v, a, d)))))
TRvel(t, w, u, v, d) == RDiv(RSub(RSub(w, u), RMul(RMul(d, RSub("1", t.alpha)), v)), RMul(t.alpha, d))
NextV(t, w, u, v, a, d) == IF t.kind = "newmark" THEN NMvel(t, w, u, v, a, d) ELSE TRvel(t, w, u, v, d)
NextA(t, w, u, v, a, d) == IF t.kind = "newmark" THEN NMacc(t, w, u, v, a, d) ELSE "0"
\* derivatives with respect to u, u_prev, v_prev, a_prev
Vars(i) == [k \in 1..4 |-> IF k = i THEN RDual("1", "1") ELSE RDual("1", "0")]
GradV(t, i, d) == LET x == Vars(i) IN RNeg(RDer(RAdd(NextV(t, x[1], x[2], x[3], x[4], d), RDual("0", "0")), 1))
GradA(t, i, d) == LET x == Vars(i) IN RNeg(RDer(RAdd(NextA(t, x[1], x[2], x[3], x[4], d), RDual("0", "0")), 1))

(* ---- rocket ---- *)
Area(g) == RMul(RMul("2", Pi), RMul(g.radius, g.length))
Rate(g) == RMul(RMul(g.burn, g.density), Area(g))
Burn(g, d, m) == [g EXCEPT !.radius = RVal(RAdd(g.radius, RMul(RMul(m, g.burn), d)))]
Throat(r) == RDiv(RMul(Pi, RMul(r.throat, r.throat)), "4")
\* the pressure at which the gas produced leaves through the throat
Balance(r, g) == RMul(r.pref, RPow(RDiv(RMul(Rate(g), r.vel), RMul(Throat(r), r.pref)), RDiv("1", RSub("1", r.alpha))))
Thrust(r, p) == RDiv(RMul(RMul("2636.2", Throat(r)), RSub(p, r.amb)), r.vel)
Speed(r, p) == RPow(RDiv(p, r.pref), r.alpha)
\* number of time steps of a burn: times 0, dt, 2 dt, ... before the end (tol: a step that ends at the end is the last)
RECURSIVE Run(_, _, _, _)
Run(r, g, k, acc) ==     \* acc: <<pressure, thrust>> of the steps so far
  IF k = 0 THEN [acc |-> acc, g |-> g]
  ELSE LET p == RVal(Balance(r, g)) IN Run(r, Burn(g, r.dt, Speed(r, p)), k - 1, Append(acc, <<p, RVal(Thrust(r, p))>>))
Ends(r, n) == LET e == RAdd(RMul(n, r.dt), r.tol) IN [surely |-> RLt(RAdd(r.total, RMul(r.total, "1/1000000000000")), e), never |-> RLt(RAdd(e, RMul(r.total, "1/1000000000000")), r.total)]
DefR == [alpha |-> "0.38", dt |-> "0.1", pref |-> "3.5e6", total |-> "10", throat |-> "0.04", tol |-> "1e-8", amb |-> "101.325", vel |-> "1554.5", itr |-> 1000]
SameG(o, g, tol) ==
  LET c(a, e) == RNear(a, e, "0", tol) IN
  /\ c(o.radius, g.radius) /\ c(o.length, g.length) /\ c(o.area, Area(g)) /\ c(o.rate, Rate(g))
  /\ Len(o.grad) = 2 /\ c(o.grad[1], RMul(RMul("2", Pi), g.length)) /\ c(o.grad[2], RMul(RMul("2", Pi), g.radius))
Tight == "1/1000000000000"
GeomOf(e) == [radius |-> e.geom[3], length |-> e.geom[2], burn |-> e.rate[1], density |-> IF e.density = "none" THEN "1744" ELSE e.density]

(* ---- saved states: [s, v, m, a: maps of the current state, saved: sequence of such states] ---- *)
Empty == [s |-> <<>>, v |-> <<>>, m |-> <<>>, a |-> <<>>]
Cur(d) == [s |-> d.s, v |-> d.v, m |-> d.m, a |-> d.a]
NewD == Empty @@ [saved |-> <<>>]
FieldEq(k, x, y) == CASE k = "s" -> REq(x, y) [] k = "v" -> VEq(x, y)
                     [] k = "m" -> Len(x) = Len(y) /\ \A i \in 1..Len(x) : VEq(x[i], y[i])
                     [] OTHER -> Len(x) = Len(y) /\ \A i \in 1..Len(x) : Len(x[i]) = Len(y[i]) /\ \A j \in 1..Len(x[i]) : VEq(x[i][j], y[i][j])
SameMap(k, o, f) == DOMAIN o = DOMAIN f /\ \A n \in DOMAIN f : FieldEq(k, o[n], f[n])
SameD(o, d, n) == o.saved = n /\ \A k \in {"s", "v", "m", "a"} : SameMap(k, o[k], d[k])
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* ------------------------------ judging ------------------------------------ *)
Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      chk(c, w) == IF ~e.exc /\ c THEN ok(s) ELSE bad(w)
      to(k, x, c, w) == IF ~e.exc /\ c THEN ok(Upd(s, k, x)) ELSE bad(w)
  IN
  CASE e.op = "nrcrit" ->
       LET m == Criterion(Upper(e.chars)) IN
       IF m = 0 THEN (IF e.exc THEN ok(s) ELSE bad("an unknown stopping criterion was accepted"))
       ELSE chk(e.out.m = m, "wrong stopping criterion")
  [] e.op = "nrnew" -> to(e.N, NewNR, SameNR(e.out, NewNR), "wrong initial Newton data")
  [] e.op = "nrset" -> LET n == [s[e.N] EXCEPT ![e.what] = e.v] IN to(e.N, n, SameNR(e.out, n), "wrong Newton data")
  [] e.op = "nrmeas" ->
       LET n == s[e.N]  m == Measure(n, e.what) IN
       IF ~RFin(n.cur) \/ ~RFin(n.ref) THEN
         (IF e.exc /\ SameNR(e.out, n) THEN ok(s) ELSE bad("a norm that is not finite was accepted, or changed something"))
       ELSE IF RFin(m.meas) THEN to(e.N, m, SameNR(e.out, m), "wrong convergence measure")
       ELSE to(e.N, [m EXCEPT !.meas = e.out.meas], SameNR(e.out, m), "wrong convergence measure")
  [] e.op = "nrprint" ->
       LET n == s[e.N]  three == Len(e.out.tok) = 3 IN
       IF ~n.write THEN chk(e.out.key = "" /\ e.out.tok = <<>> /\ e.out.lines = 0, "something was written although output is off")
       ELSE IF e.file = "closed" THEN (IF e.exc THEN ok(s) ELSE bad("a closed diagnostics file was accepted"))
       ELSE CASE e.what = "stop" -> chk(e.out.key = StopKey[n.stop + 1], "wrong stop message")
              [] e.what = "head" -> chk(three /\ e.out.lines = 1, "wrong header")
              [] OTHER -> chk(three /\ e.out.lines = 1 /\ e.out.tok[1] = ToString(n.it)
                              /\ \A q \in {<<2, n.cur>>, <<3, n.meas>>} : IF RFin(q[2]) THEN RNear(e.out.tok[q[1]], q[2], "0", "1/1000000") ELSE ~RFin(e.out.tok[q[1]]),
                              "wrong diagnostics")
  [] e.op = "tnew" ->
       LET p == e.p
           fine == IF e.kind = "newmark" THEN Is(p, "Newmark Gamma", "d") /\ Is(p, "Newmark Beta", "d") ELSE "Trapezoid Alpha" \in DOMAIN p => Is(p, "Trapezoid Alpha", "d")
       IN IF ~fine THEN (IF e.exc THEN ok(s) ELSE bad("an incomplete integrator was accepted"))
          ELSE to(e.T, IF e.kind = "newmark" THEN [kind |-> "newmark", gamma |-> p["Newmark Gamma"].v, beta |-> p["Newmark Beta"].v]
                       ELSE [kind |-> "trap", alpha |-> IF "Trapezoid Alpha" \in DOMAIN p THEN p["Trapezoid Alpha"].v ELSE "1/2"], TRUE, "the integrator was rejected")
  [] e.op = "tgrad" ->
       LET t == s[e.T]  nv == IF t.kind = "newmark" THEN 4 ELSE 3  na == IF t.kind = "newmark" THEN 4 ELSE 0 IN
       chk(Len(e.out.v) = nv /\ Len(e.out.a) = na /\ (\A i \in 1..nv : RClose(e.out.v[i], GradV(t, i, e.dt))) /\ (\A i \in 1..na : RClose(e.out.a[i], GradA(t, i, e.dt))),
           "wrong derivative of the integrator")
  [] e.op = "tval" ->
       LET t == s[e.T]  x == e.x  n == Len(x[1])
           exp(i) == IF t.kind = "trap" THEN RSub(x[3][i], TRvel(t, x[1][i], x[2][i], x[4][i], e.dt))
                     ELSE IF e.what = "v" THEN RSub(x[3][i], NMvel(t, x[1][i], x[2][i], x[4][i], x[6][i], e.dt)) ELSE RSub(x[5][i], NMacc(t, x[1][i], x[2][i], x[4][i], x[6][i], e.dt))
       IN chk(Len(e.out.r) = n /\ (\A i \in 1..n : RClose(e.out.r[i], exp(i))) /\ \A k \in 1..Len(x) : VEq(e.out.x[k], x[k]), "wrong integrator residual")
  [] e.op = "hnew" -> to(e.H, [u |-> e.u, v |-> e.v, a |-> e.a], TRUE, "rejected")
  [] e.op = "hstep" ->
       LET t == s[e.T]  h == s[e.H]  n == Len(e.u) IN
       to(e.H, [u |-> e.out.u, v |-> e.out.v, a |-> e.out.a],
          Len(e.out.v) = n /\ Len(e.out.a) = n /\ VEq(e.out.u, e.u) /\ \A i \in 1..n :
            RClose(e.out.v[i], NextV(t, e.u[i], h.u[i], h.v[i], h.a[i], e.dt)) /\ RClose(e.out.a[i], NextA(t, e.u[i], h.u[i], h.v[i], h.a[i], e.dt)),
          "wrong step of the motion")
  [] e.op = "gnew" -> LET g == [radius |-> "0", length |-> "0", burn |-> "0", density |-> "0"] IN to(e.G, g, SameG(e.out, g, Tight), "wrong initial chamber")
  [] e.op = "gupdate" -> LET g == GeomOf(e) IN to(e.G, g, SameG(e.out, g, Tight), "wrong chamber")
  [] e.op = "gevolve" -> LET g == Burn(s[e.G], e.dt, e.m) IN to(e.G, [g EXCEPT !.radius = e.out.radius], SameG(e.out, g, Tight), "wrong evolution of the chamber")
  [] e.op = "rnew" -> to(e.R, e.p @@ DefR, TRUE, "the rocket was rejected")
  [] e.op = "rset" -> to(e.R, [s[e.R] EXCEPT ![e.what] = e.v], TRUE, "rejected")
  [] e.op = "rinit" ->
       LET g == GeomOf(e)  q == RDiv(s[e.R].total, s[e.R].dt)  n == ToString(e.out.steps) IN
       to(e.G, g, SameG(e.out, g, Tight) /\ RLeq(n, RMul(q, "1.000000000001")) /\ RLt(RSub(q, "1"), RMul(RAdd(n, "1/1000000000000"), "1.000000000001")), "wrong initialization")
  [] e.op = "rsolve" ->
       LET r == s[e.R]  g == s[e.G]  o == e.out  n == Len(o.t)
           res == Run(r, g, n, <<>>)
           near(a, x) == RNear(a, x, RMul(r.tol, "10000000"), "1/10000000")
       IN IF e.exc \/ n = 0 \/ Len(o.f) # n \/ Len(o.p) # n THEN bad("no profile")
          ELSE IF Ends(r, ToString(n)).never \/ (n > 1 /\ Ends(r, ToString(n - 1)).surely) THEN bad("wrong duration of the burn")
          ELSE IF ~\A i \in 1..n : RNear(o.t[i], RMul(ToString(i - 1), r.dt), r.total, "1/1000000000") THEN bad("wrong times")
          ELSE IF ~(REq(o.p[1], r.pref) /\ REq(o.f[1], "0")) THEN bad("wrong initial pressure or thrust")
          ELSE IF ~\A i \in 2..n : near(o.p[i], res.acc[i - 1][1]) THEN bad("the pressure does not balance the production of gas")
          ELSE IF ~\A i \in 2..n : RNear(o.f[i], res.acc[i - 1][2], RAdd(RAbs(Thrust(r, RAdd(res.acc[i - 1][1], r.amb))), RAbs(Thrust(r, RAdd(r.amb, RMul(r.tol, "10000000"))))), "1/10000000")
               THEN bad("wrong thrust")
          ELSE IF ~SameG(o, res.g, "1/1000000") THEN bad("wrong final chamber")
          ELSE ok(Upd(s, e.G, [res.g EXCEPT !.radius = o.radius]))
  [] e.op = "rout" ->
       chk(IF e.on THEN e.out.file /\ Len(e.out.f) = Len(e.out.prof) /\ \A i \in 1..Len(e.out.f) : RNear(e.out.f[i], e.out.prof[i], "0", "1/100000") ELSE ~e.out.file, "wrong thrust file")
  [] e.op = "dnew" -> to(e.D, NewD, TRUE, "rejected")
  [] e.op = "dset" -> LET d == [s[e.D] EXCEPT ![e.kind] = Upd(@, e.key, e.v)] IN to(e.D, d, SameD(e.out, d, Len(d.saved)), "wrong data")
  [] e.op = "ddel" -> LET d == [s[e.D] EXCEPT ![e.kind] = Drop(@, e.key)] IN to(e.D, d, SameD(e.out, d, Len(d.saved)), "wrong data")
  [] e.op = "dsave" -> LET d == [s[e.D] EXCEPT !.saved = Append(@, Cur(s[e.D]))] IN to(e.D, d, SameD(e.out, d, Len(d.saved)), "saving changed the current state or did not add one")
  [] e.op = "dclear" -> LET d == [s[e.D] EXCEPT !.saved = <<>>] IN to(e.D, d, SameD(e.out, d, 0), "clearing changed the current state or kept saved ones")
  [] e.op \in {"dget", "dtake"} ->
       LET d == s[IF e.op = "dget" THEN e.D ELSE e.from]
           any == e.op = "dget" /\ e.cur
           fine == IF any THEN TRUE ELSE d.saved = <<>> \/ e.k \in 0..(Len(d.saved) - 1)
           x == IF any THEN Cur(d) ELSE IF d.saved = <<>> THEN Cur(d) ELSE d.saved[e.k + 1]
       IN IF ~fine THEN (IF e.exc THEN ok(s) ELSE bad("a state that does not exist was returned"))
          ELSE IF e.exc \/ ~SameD(e.out, x, 0) THEN bad("not the state that was saved")
          ELSE ok(IF e.op = "dtake" THEN Upd(s, e.D, x @@ [saved |-> <<>>]) ELSE s)
  [] e.op = "dcopy" -> LET d == s[e.from] IN to(e.D, d, SameD(e.out, d, Len(d.saved)), "wrong copy")
  [] e.op = "soln" ->
       LET want(i) == IF i <= Len(e.x) THEN e.x[i] ELSE <<>>
           same(o) == Len(o) = 3 /\ \A i \in 1..3 : FieldEq("m", o[i], want(i))
       IN chk(same(e.out.x) /\ same(e.out.y), "wrong solution")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
