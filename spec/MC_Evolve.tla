------------------------------ MODULE MC_Evolve ------------------------------
(* "newton": every sequence of Depth iterations of a Newton solve.  "motion":  *)
(* motions of constant acceleration followed by the integrators.  "rocket":    *)
(* burning chambers.  "states": histories of setting, saving, clearing.        *)
(* gh is what an observer remembers independently of the state.                *)
EXTENDS Evolve, Json

CONSTANTS Kind, Depth

VARIABLES st, hist, gh

Do(t, e) == Judge1(t, e @@ [exc |-> FALSE, out |-> <<>>]).st

(* ---- Newton: the observer remembers the norms since iteration 0 ---- *)
N == st["n"]
SetN(f, x) == [op |-> "nrset", N |-> "n", what |-> f, v |-> x]
Iter(x, w) ==
  LET n == [N EXCEPT !.cur = x]  m == IF RFin(x) /\ RFin(N.ref) THEN Measure(n, w) ELSE n IN
  /\ st' = Upd(st, "n", [m EXCEPT !.it = IF RFin(x) THEN @ + 1 ELSE @])
  /\ hist' = hist \o <<SetN("cur", x), [op |-> "nrmeas", N |-> "n", what |-> w], SetN("it", IF RFin(x) THEN N.it + 1 ELSE N.it)>>
  /\ gh' = IF RFin(x) THEN Append(gh, <<x, w>>) ELSE gh
Restart == st' = Upd(st, "n", [N EXCEPT !.it = 0]) /\ hist' = Append(hist, SetN("it", 0)) /\ gh' = <<>>
NewtonInit == st = ("n" :> NewNR) /\ hist = <<[op |-> "nrnew", N |-> "n"]>> /\ gh = <<>>
NewtonNext == Len(hist) <= 3 * Depth /\ ((\E x \in {"4", "1", "1/2", "nan"}, w \in {"rel", "abs"} : Iter(x, w)) \/ (N.it > 1 /\ Restart))
\* the measure is decided by the last two norms alone, and the first iteration has none
LastTwo == Kind = "newton" =>
  /\ N.it = Len(gh)
  /\ Len(gh) >= 1 => REq(N.ref, gh[Len(gh)][1])
  /\ Len(gh) >= 2 => LET a == gh[Len(gh) - 1][1]  b == gh[Len(gh)][1]  d == RAbs(RSub(a, b)) IN REq(N.meas, IF gh[Len(gh)][2] = "abs" THEN d ELSE RDiv(d, b))
Rejects == Kind = "newton" => RFin(N.ref) /\ RFin(N.meas)

(* ---- motions: the observer remembers the time and the constant acceleration ---- *)
Integs == {[op |-> "tnew", T |-> "t", kind |-> "newmark", p |-> ("Newmark Gamma" :> [t |-> "d", v |-> g]) @@ ("Newmark Beta" :> [t |-> "d", v |-> b])] : g \in {"1/2", "3/4"}, b \in {"1/4", "1/2"}}
          \cup {[op |-> "tnew", T |-> "t", kind |-> "trap", p |-> <<>>], [op |-> "tnew", T |-> "t", kind |-> "trap", p |-> [x \in {"Trapezoid Alpha"} |-> [t |-> "d", v |-> "3/4"]]]}
U(t, a) == RSum(<<"1", RMul("-2", t), RMul("1/2", RMul(a, RMul(t, t)))>>)
V(t, a) == RAdd("-2", RMul(a, t))
MotionInit == \E i \in Integs, a \in {"0", "3"} :
  /\ hist = <<i, [op |-> "hnew", H |-> "h", u |-> <<"1">>, v |-> <<"-2">>, a |-> <<a>>]>>
  /\ st = Do(Do(<<>>, hist[1]), hist[2]) /\ gh = [t |-> "0", a |-> a]
Move(d) ==
  LET w == U(RAdd(gh.t, d), gh.a)  h == st["h"]  i == st["t"]
      n == [u |-> <<w>>, v |-> <<NextV(i, w, h.u[1], h.v[1], h.a[1], d)>>, a |-> <<NextA(i, w, h.u[1], h.v[1], h.a[1], d)>>]
  IN st' = Upd(st, "h", n) /\ gh' = [gh EXCEPT !.t = RAdd(@, d)] /\ hist' = Append(hist, [op |-> "hstep", T |-> "t", H |-> "h", u |-> <<w>>, dt |-> d])
MotionNext == Len(hist) < Depth + 2 /\ \E d \in {"1/2", "2", "1/8"} : Move(d)
\* constant acceleration is followed exactly by Newmark and by the trapezoid rule with 1/2; constant velocity always
Exact == Kind = "motion" =>
  LET h == st["h"]  i == st["t"] IN
  /\ REq(h.u[1], U(gh.t, gh.a))
  /\ (i.kind = "newmark" \/ RIsZero(gh.a) \/ REq(i.alpha, "1/2")) => REq(h.v[1], V(gh.t, gh.a))
  /\ i.kind = "newmark" => REq(h.a[1], gh.a)
\* the average acceleration method keeps the energy of an oscillator u'' = -k u
Energy == Kind = "motion" /\ st["t"].kind = "newmark" /\ REq(st["t"].gamma, "1/2") /\ REq(st["t"].beta, "1/4") =>
  \A k \in {"1", "5"}, d \in {"1/2", "3"} :
    LET u == "2"  v == "-1"  a == RNeg(RMul(k, u))
        w == RDiv(RSum(<<u, RMul(d, v), RMul(RMul("1/4", RMul(d, d)), a)>>), RAdd("1", RMul(RMul("1/4", RMul(d, d)), k)))
        e(x, y) == RAdd(RMul(k, RMul(x, x)), RMul(y, y))
    IN REq(NMacc(st["t"], w, u, v, a, d), RNeg(RMul(k, w))) /\ REq(e(u, v), e(w, NMvel(st["t"], w, u, v, a, d)))
\* the residuals are linear with the stated slopes
Slopes == Kind = "motion" => \A i \in 1..4, d \in {"1/2", "3"} :
  LET x == <<"1", "2", "-3", "5">>  y == [x EXCEPT ![i] = RAdd(@, "1")]  t == st["t"] IN
  /\ REq(RSub(NextV(t, x[1], x[2], x[3], x[4], d), NextV(t, y[1], y[2], y[3], y[4], d)), GradV(t, i, d))
  /\ REq(RSub(NextA(t, x[1], x[2], x[3], x[4], d), NextA(t, y[1], y[2], y[3], y[4], d)), GradA(t, i, d))

(* ---- rockets: the observer remembers the initial chamber ---- *)
G == st["g"]
RocketInit == \E l \in {"1/2", "1"}, b \in {"1/128", "1/64"} :
  /\ hist = <<[op |-> "gnew", G |-> "g"], [op |-> "gupdate", G |-> "g", what |-> "init", geom |-> <<"2", l, "1/8">>, rate |-> <<b, "0">>, density |-> "1024"]>>
  /\ st = ("g" :> GeomOf(hist[2])) /\ gh = st["g"]
RocketNext == Len(hist) < Depth + 2 /\ \E d \in {"1/2", "1"}, m \in {"0", "1/2", "2"} :
  /\ st' = Upd(st, "g", Burn(G, d, m)) /\ hist' = Append(hist, [op |-> "gevolve", G |-> "g", dt |-> d, m |-> m]) /\ UNCHANGED gh
Small == [DefR EXCEPT !.dt = "1/4", !.total = "1", !.throat = "1/16", !.pref = "1000000"]
Balanced == Kind = "rocket" => LET p == Balance(Small, G) IN RNear(RMul(Rate(G), Speed(Small, p)), RDiv(RMul(Throat(Small), p), Small.vel), "0", "1/1000000000")
Widens == Kind = "rocket" => RLeq(gh.radius, G.radius) /\ RLeq(RVal(Balance(Small, gh)), RMul("1.000000000001", RVal(Balance(Small, G)))) /\ G.length = gh.length
SlopeOfArea == Kind = "rocket" =>
  /\ RClose(RDer(Area([G EXCEPT !.radius = RDual(@, "1")]), 1), RMul(RMul("2", Pi), G.length))
  /\ RClose(RDer(Area([G EXCEPT !.length = RDual(@, "1")]), 1), RMul(RMul("2", Pi), G.radius))

(* ---- saved states: the observer remembers the value of x at each save (0: none) ---- *)
Xof(d) == IF "x" \in DOMAIN d.s THEN d.s["x"] ELSE "none"
StatesInit == hist = <<[op |-> "dnew", D |-> "d"], [op |-> "dnew", D |-> "e"]>> /\ st = ("d" :> NewD) @@ ("e" :> NewD) /\ gh = [d |-> <<>>, e |-> <<>>]
StDo(e) ==
  LET d == st[e.D] IN
  /\ st' = Upd(st, e.D, CASE e.op = "dset" -> [d EXCEPT ![e.kind] = Upd(@, e.key, e.v)] [] e.op = "ddel" -> [d EXCEPT ![e.kind] = Drop(@, e.key)]
                          [] e.op = "dsave" -> [d EXCEPT !.saved = Append(@, Cur(d))] [] e.op = "dclear" -> [d EXCEPT !.saved = <<>>]
                          [] OTHER -> st[e.from])
  /\ gh' = [gh EXCEPT ![e.D] = CASE e.op = "dsave" -> Append(@, Xof(d)) [] e.op = "dclear" -> <<>> [] e.op = "dcopy" -> gh[e.from] [] OTHER -> @]
  /\ hist' = Append(hist, e)
StatesNext == Len(hist) < Depth + 2 /\ (
  \/ \E v \in {"1", "2"} : StDo([op |-> "dset", D |-> "d", kind |-> "s", key |-> "x", v |-> v])
  \/ StDo([op |-> "dset", D |-> "d", kind |-> "v", key |-> "x", v |-> <<"3", "4">>])
  \/ StDo([op |-> "ddel", D |-> "d", kind |-> "s", key |-> "x"])
  \/ StDo([op |-> "dsave", D |-> "d"])
  \/ StDo([op |-> "dclear", D |-> "d"])
  \/ StDo([op |-> "dcopy", D |-> "e", from |-> "d"])
  \/ StDo([op |-> "dcopy", D |-> "d", from |-> "e"]))
\* a saved state stays what it was when it was saved
Frozen == Kind = "states" => \A n \in {"d", "e"} : Len(gh[n]) = Len(st[n].saved) /\ \A i \in 1..Len(gh[n]) : Xof(st[n].saved[i]) = gh[n][i]
NoNesting == Kind = "states" => \A n \in {"d", "e"} : \A i \in 1..Len(st[n].saved) : "saved" \notin DOMAIN st[n].saved[i]

Init == CASE Kind = "newton" -> NewtonInit [] Kind = "motion" -> MotionInit [] Kind = "rocket" -> RocketInit [] OTHER -> StatesInit
Next == CASE Kind = "newton" -> NewtonNext [] Kind = "motion" -> MotionNext [] Kind = "rocket" -> RocketNext [] OTHER -> StatesNext
Spec == Init /\ [][Next]_<<st, hist, gh>>

Probe == CASE Kind = "newton" -> <<[op |-> "nrprint", N |-> "n", what |-> "diag", file |-> "open"]>>
           [] Kind = "motion" -> <<[op |-> "tgrad", T |-> "t", dt |-> "1/2"]>>
           [] Kind = "rocket" -> <<[op |-> "rnew", R |-> "r", G |-> "g", p |-> [dt |-> "1/4", total |-> "1", throat |-> "1/16", pref |-> "1000000"]], [op |-> "rsolve", R |-> "r", G |-> "g"]>>
           [] OTHER -> <<[op |-> "dget", D |-> "d", cur |-> TRUE, k |-> 0]>> \o [i \in 1..3 |-> [op |-> "dget", D |-> "d", cur |-> FALSE, k |-> i - 1]]
                       \o [i \in 1..2 |-> [op |-> "dget", D |-> "e", cur |-> FALSE, k |-> i - 1]]
Full == CASE Kind = "newton" -> Len(hist) > 3 * Depth [] OTHER -> Len(hist) = Depth + 2
Emit == Full => PrintT("SCEN " \o ToJson(hist \o Probe))
=============================================================================
