------------------------------ MODULE MC_Plast ------------------------------
(* "hist": every load history of Depth steps at one material point: a trial   *)
(* stress, a multiplier, an elastic or a plastic step.  "elast": a grid of    *)
(* strains and moduli.                                                        *)
EXTENDS Plasticity, Json

CONSTANTS Kind, Depth

VARIABLES dim, prev, cur, hist

H == "3"
Zero(d) == [i \in 1..(2 + (2 * NT(d))) |-> "0"]
Trials(d) == IF d = 2 THEN {<<"2", "-1", "0", "-1">>, <<"-1", "2", "3", "-1">>, <<"0", "0", "-4", "0">>, <<"100", "50", "25", "-150">>}
             ELSE {<<"2", "-1", "-1", "0", "0", "0">>, <<"0", "3", "-3", "1", "-2", "4">>, <<"0", "0", "0", "0", "0", "-5">>, <<"-100", "60", "40", "25", "7", "0">>}
Gammas == {"1/2", "4"}
Rows == {<<"v1", "w1">>}

Init == IF Kind = "hist" THEN dim \in {2, 3} /\ prev = Zero(dim) /\ cur = Zero(dim) /\ hist = <<>>
        ELSE dim \in {1, 2, 3} /\ prev = <<>> /\ cur = <<>> /\ hist = <<>>
\* one step: direction from the trial stress, multiplier, update, acceptance
Step(dev, g, plastic) ==
  LET N == Flow(dim, dev, cur)
      c0 == [cur EXCEPT ![2] = g]
      c1 == IF plastic THEN PlasticStep(dim, prev, c0, N, H) ELSE ElasticStep(dim, prev, c0)
  IN /\ hist' = Append(hist, [dev |-> dev, g |-> g, plastic |-> plastic, N |-> N, before |-> prev, after |-> c1])
     /\ cur' = c1 /\ prev' = c1
Grid(d) == {[i \in 1..NT(d) |-> v[IF i > 3 THEN i - 3 ELSE i]] : v \in {<<a, b, c>> : a \in {"1", "-3/4", "0"}, b \in {"1/2", "-2"}, c \in {"1/4", "-5", "0"}}}
Next == /\ UNCHANGED dim
        /\ IF Kind = "hist" THEN /\ Len(hist) < Depth
                                /\ \E dev \in Trials(dim), g \in Gammas, p \in {TRUE, FALSE} : ~RIsZero(RelNorm(dim, dev, cur)) /\ Step(dev, g, p)
           ELSE /\ cur = <<>>
                /\ \E e \in Grid(dim), K \in {"5/4", "0"}, G \in {"1/2", "80"} : cur' = e /\ prev' = <<K, G>>
                /\ UNCHANGED hist
Spec == Init /\ [][Next]_<<dim, prev, cur, hist>>

(* ------------------------------- laws -------------------------------------- *)
Near(a, b) == RNear(a, b, "1", "1/1000000000000000000000000000000")
Last == hist[Len(hist)]
\* plastic flow preserves volume, and so does the backstress
Isochoric == Kind = "hist" => Near(Trace(dim, PsOf(dim, cur)), "0") /\ Near(Trace(dim, BsOf(dim, cur)), "0")
\* with constant hardening the backstress is 2/3 H times the plastic strain tensor
Prager == Kind = "hist" => \A i \in 1..NT(dim) :
  Near(BsOf(dim, cur)[i], RMul(RMul("2/3", H), IF i \in Shear(dim) THEN RDiv(PsOf(dim, cur)[i], "2") ELSE PsOf(dim, cur)[i]))
UnitFlow == Kind = "hist" /\ hist # <<>> => Near(Contract(dim, Last.N, Last.N), "1")
\* an update satisfies its own residual equations; an elastic step leaves the tensors
Consistent == Kind = "hist" /\ hist # <<>> =>
  LET r == [i \in 1..Len(cur) |-> "0"] IN
  \A w \in (IF Last.plastic THEN {"psP", "bsP"} ELSE {"psE", "bsE"}) : \A i \in 1..Len(cur) : Near(Residual(w, dim, cur, Last.before, Last.N, H, r)[i], "0")
\* flow dissipates: relative stress times plastic strain increment is not negative
Dissipative == Kind = "hist" /\ hist # <<>> =>
  LET d == VSub(PsOf(dim, Last.after), PsOf(dim, Last.before))
      t == [i \in 1..NT(dim) |-> IF i \in Shear(dim) THEN RDiv(d[i], "2") ELSE d[i]]
  IN RLeq("0", Contract(dim, Rel(dim, Last.dev, Last.before), t))

Elast == Kind = "elast" /\ cur # <<>>
Splits == Elast => /\ (dim > 1 => REq(Trace(dim, Dev(dim, cur)), "0"))
                   /\ LET s == Cauchy(dim, prev[1], prev[2], cur)  d == DevStress(dim, prev[2], cur) IN
                      \A i \in 1..NT(dim) : REq(RSub(s[i], d[i]), IF i \in Shear(dim) THEN "0" ELSE RMul(prev[1], Trace(dim, cur)))
\* elastic work is half of stress times strain
WorkIsHalf == Elast /\ dim > 1 =>
  LET t == [i \in 1..NT(dim) |-> IF i \in Shear(dim) THEN RDiv(cur[i], "2") ELSE cur[i]] IN
  REq(Work(dim, prev[2], prev[1], t, Dev(dim, t)), RDiv(Contract(dim, Cauchy(dim, prev[1], prev[2], cur), t), "2"))
\* E = 9KG / (3K + G)
Moduli == \A E \in {"1", "7/2"}, v \in {"0", "1/4", "-1/2", "3/8"} : LET K == BulkMod(E, v)  G == ShearMod(E, v) IN
  REq(E, RDiv(RMul("9", RMul(K, G)), RAdd(RMul("3", K), G)))

RECURSIVE StepOps(_)
StepOps(h) == IF h = <<>> THEN <<>> ELSE LET x == h[1] IN
  <<[op |-> "flow", dim |-> dim, cur |-> "c", N |-> "N", dev |-> <<x.dev>>], [op |-> "gamma", S |-> "c", g |-> <<x.g>>],
    [op |-> IF x.plastic THEN "plastic" ELSE "elastic", dim |-> dim, cur |-> "c", prev |-> "p", N |-> "N", H |-> H, cells |-> <<0>>],
    [op |-> "resid", what |-> IF x.plastic THEN "psP" ELSE "psE", dim |-> dim, cur |-> "c", prev |-> "p", N |-> "N", H |-> H],
    [op |-> "resid", what |-> IF x.plastic THEN "bsP" ELSE "bsE", dim |-> dim, cur |-> "c", prev |-> "p", N |-> "N", H |-> H],
    [op |-> "advance", prev |-> "p", cur |-> "c"]>> \o StepOps(Tail(h))
P2(x, k) == <<x, ToString(k)>>
PV(x) == [i \in 1..Len(x) |-> P2(x[i], (3 * i) - 4)]
ElastOps == <<[op |-> "devstrain", dim |-> dim, e |-> <<PV(cur)>>, r0 |-> <<PV(cur)>>, cells |-> <<0>>],
              [op |-> "devstress", dim |-> dim, G |-> P2(prev[2], 2), e |-> <<PV(cur)>>, r0 |-> <<PV(cur)>>, cells |-> <<0>>],
              [op |-> "work", dim |-> dim, K |-> P2(prev[1], 5), G |-> P2(prev[2], 2), e |-> <<PV(cur)>>, dev |-> <<PV(cur)>>, r0 |-> <<P2("9", 1)>>, cells |-> <<0>>],
              [op |-> "cauchy", dim |-> dim, K |-> P2(prev[1], 5), G |-> P2(prev[2], 2), e |-> <<PV(cur)>>, r0 |-> <<PV(cur)>>, cells |-> <<0>>]>>
Emit == IF Kind = "hist" THEN Len(hist) = Depth => PrintT("SCEN " \o ToJson(<<[op |-> "state", S |-> "c", rows |-> <<Zero(dim)>>], [op |-> "state", S |-> "p", rows |-> <<Zero(dim)>>]>> \o StepOps(hist)))
        ELSE Elast => PrintT("SCEN " \o ToJson(ElastOps))
=============================================================================
