------------------------------ MODULE MC_Design ------------------------------
(* "pen": every history of Depth steps of a penalty model and of a weighting  *)
(* made from it (continuation, setters, parameter maps).  "proj": histories   *)
(* of a projection.                                                           *)
EXTENDS Design, Json

CONSTANTS Kind, Depth

VARIABLES st, hist

Lists == {<<>>, [Exponent |-> [t |-> "d", v |-> "2"]],
          ("Exponent" :> [t |-> "d", v |-> "1"]) @@ ("Penalty Exponent Upper Bound" :> [t |-> "d", v |-> "5/4"]) @@ ("Additive Continuation" :> [t |-> "d", v |-> "1/4"]),
          ("Minimum Value" :> [t |-> "d", v |-> "1/8"]) @@ ("Regularization Length" :> [t |-> "d", v |-> "2"])}
News == {[op |-> "pnew", P |-> "p", kind |-> k, from |-> "list", p |-> l] : k \in {"simp", "ramp", "heav"}, l \in Lists}
        \cup {[op |-> "pnew", P |-> "p", kind |-> "simp", from |-> "args", a |-> <<"1", "1/16">>],
              [op |-> "pnew", P |-> "p", kind |-> "heav", from |-> "args", a |-> <<"2", "1/2", "1/16">>],
              [op |-> "pnew", P |-> "p", kind |-> "ramp", from |-> "default"], [op |-> "pnew", P |-> "p", kind |-> "heav", from |-> "default"],
              [op |-> "pnew", P |-> "p", kind |-> "none", from |-> "default"]}
Maps == {<<>>, [Exponent |-> "5/2"], "Minimum Value" :> "1/4", "Additive Continuation" :> "1/2", "Regularization Length" :> "3/2",
         ("Exponent" :> "2") @@ ("Additive Continuation" :> "1")}
PSteps(t) == {[op |-> "pupdate", P |-> "p"]}
             \cup (IF t["p"].kind # "none" THEN {[op |-> "pparams", P |-> "p", m |-> q] : q \in Maps} ELSE {})
             \cup (IF t["p"].kind = "simp" THEN {[op |-> "pset", P |-> "p", what |-> w, v |-> "3/2"] : w \in {"pen", "min", "add"}} ELSE {})
             \cup {[op |-> "wnew", W |-> "w", P |-> "p", dim |-> 2, terms |-> 3]}
             \cup (IF "w" \in DOMAIN t THEN {[op |-> "wupdate", W |-> "w"]} ELSE {})
JNews == {[op |-> "jnew", J |-> "j", kind |-> "tanh", from |-> "default"], [op |-> "jnew", J |-> "j", kind |-> "tanh", from |-> "args", a |-> <<"4", "1/4">>],
          [op |-> "jnew", J |-> "j", kind |-> "tanh", from |-> "list", p |-> [Eta |-> [t |-> "d", v |-> "3/4"]]],
          [op |-> "jnew", J |-> "j", kind |-> "heav", from |-> "default"], [op |-> "jnew", J |-> "j", kind |-> "heav", from |-> "args", a |-> <<"2">>]}
JSteps(t) == {[op |-> "jset", J |-> "j", what |-> "beta", beta |-> "1"], [op |-> "jset", J |-> "j", what |-> "beta", beta |-> "20"]}
             \cup (IF t["j"].kind = "tanh" THEN {[op |-> "jset", J |-> "j", what |-> "eta", eta |-> "1/8"], [op |-> "jset", J |-> "j", what |-> "both", beta |-> "3", eta |-> "7/8"]} ELSE {})
Do(t, e) == Judge1(t, e @@ [exc |-> FALSE, out |-> <<>>]).st
Init == st = <<>> /\ hist = <<>>
Next == /\ Len(hist) <= Depth
        /\ \E e \in (IF hist = <<>> THEN (IF Kind = "pen" THEN News ELSE JNews) ELSE IF Kind = "pen" THEN PSteps(st) ELSE JSteps(st)) :
             st' = Do(st, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_<<st, hist>>

(* ------------------------------- laws -------------------------------------- *)
Last == hist[Len(hist)]
HasP == Kind = "pen" /\ hist # <<>>
M == st["p"]
\* continuation never exceeds its bound and adds its increment below it
Continued == HasP /\ Last.op = "pupdate" /\ M.kind # "none" => RLeq(M.pen, M.up)
Reaches == HasP /\ M.kind # "none" => RLeq(Continue(M).pen, M.up) /\ (RLeq(RAdd(M.pen, M.add), M.up) => REq(Continue(M).pen, RAdd(M.pen, M.add)))
\* full material is not penalized, void is worth the minimum
Ends == HasP => /\ (M.kind \in {"simp", "ramp"} => REq(Pen(M, "1"), "1") /\ REq(Pen(M, "0"), M.min))
                /\ (M.kind = "heav" => REq(Pen(M, M.reg), "1") /\ REq(Pen(M, RNeg(M.reg)), M.min))
\* values grow with the density
Grows == HasP /\ M.kind \in {"simp", "ramp", "heav"} /\ RLt(M.min, "1") =>
  \A k \in 1..7 : RLeq(RVal(Pen(M, RDiv(ToString(k - 1), "8"))), RVal(Pen(M, RDiv(ToString(k), "8"))))
\* a weighting keeps the model it was made from, whatever happens to the original
Owns == HasP /\ "w" \in DOMAIN st /\ Last.op \in {"pupdate", "pset", "pparams"} =>
  LET i == CHOOSE n \in 1..Len(hist) : hist[n].op = "wnew" /\ \A k \in (n + 1)..Len(hist) : hist[k].op # "wnew" IN st["w"].model.kind = M.kind
Near(a, b) == RNear(a, b, "1", "1/100000000000")
HasJ == Kind = "proj" /\ hist # <<>>
ProjEnds == HasJ => Near(RVal(Proj(st["j"], "0")), "0") /\ Near(RVal(Proj(st["j"], "1")), "1")
ProjGrows == HasJ => \A k \in 1..8 : RLeq(RVal(Proj(st["j"], RDiv(ToString(k - 1), "8"))), RVal(Proj(st["j"], RDiv(ToString(k), "8"))))

P2(x, k) == <<x, ToString(k)>>
Xs == <<P2("1/8", 1), P2("1/2", -2), P2("7/8", 3), P2("1", 1), P2("-3/4", 2), P2("3", 1)>>
Pos == <<P2("1/8", 1), P2("1/2", -2), P2("7/8", 3), P2("1", 1)>>
Ctl == <<<<P2("1/4", 1), P2("1/2", 2), P2("3/4", 3)>>, <<P2("1", 1), P2("7/8", -2), P2("1/8", 3)>>>>
Row == <<P2("3", 1), P2("-2", 2), P2("5", -1)>>
Probe == IF Kind = "proj" THEN <<[op |-> "jeval", J |-> "j", x |-> Pos], [op |-> "japply", J |-> "j", ctl |-> Ctl]>>
         ELSE <<[op |-> "peval", P |-> "p", x |-> IF st["p"].kind = "heav" THEN Xs ELSE Pos],
                [op |-> "papply", P |-> "p", what |-> "2", rho |-> <<P2("1/2", 1), P2("3/4", 2)>>, r0 |-> <<Row, Row>>, cells |-> <<1>>]>>
              \o (IF "w" \in DOMAIN st THEN <<[op |-> "wapply", W |-> "w", what |-> "inout", ctl |-> Ctl, r0 |-> <<Row, Row>>, cells |-> <<0, 1>>]>> ELSE <<>>)
Emit == Len(hist) = Depth + 1 => PrintT("SCEN " \o ToJson(hist \o Probe))
=============================================================================
