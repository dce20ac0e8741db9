------------------------------ MODULE MC_Blas ------------------------------
(* All histories of Depth operations on small registers, with the laws a      *)
(* client relies on as invariants of every reachable state; every complete    *)
(* history is replayed on the implementation.                                 *)
EXTENDS Blas, Json

CONSTANTS Kind, Depth        \* Kind: "vec" | "ws"

VARIABLES st, hist, res

Vec0 == <<[op |-> "vec", x |-> "x", v |-> <<"-1", "2">>], [op |-> "vec", x |-> "y", v |-> <<"-3", "-2">>],
          [op |-> "vec", x |-> "z", v |-> <<"5">>]>>
Ws0  == <<[op |-> "ws", x |-> "x", d |-> <<2, 2>>, v |-> <<<<"1", "-2">>, <<"3", "4">>>>],
          [op |-> "ws", x |-> "y", d |-> <<2, 4>>, v |-> <<<<"1", "2", "3", "4">>, <<"0", "-1", "-2", "-3">>>>],
          [op |-> "ws", x |-> "u", d |-> <<2, 2>>, v |-> <<<<"5", "1">>, <<"2", "-2">>>>],
          [op |-> "arr", x |-> "a", d |-> <<2, 2, 2>>, v |-> <<<<<<"1", "2">>, <<"3", "-1">>>>, <<<<"2", "0">>, <<"-1", "1">>>>>>],
          [op |-> "arr", x |-> "b", d |-> <<2, 2, 2>>, v |-> <<<<<<"0", "1">>, <<"-1", "2">>>>, <<<<"1", "-3">>, <<"2", "2">>>>>>]>>
RECURSIVE Setup(_, _)
Setup(s, q) == IF q = <<>> THEN s ELSE Setup(Step(s, Head(q)).st, Tail(q))
Pre == IF Kind = "vec" THEN Vec0 ELSE Ws0

VN == {"x", "y", "z"}
VecOps ==
  {[op |-> "copy", x |-> p, y |-> q] : p \in VN, q \in VN} \union
  {[op |-> "axpy", alpha |-> "2", x |-> p, y |-> q] : p \in VN, q \in VN} \union
  {[op |-> "update", alpha |-> "-1", x |-> p, beta |-> be, y |-> q] : p \in {"x", "y"}, q \in VN, be \in {"0", "3"}} \union
  {[op |-> "scale", alpha |-> al, x |-> p] : al \in {"-2", "nan"}, p \in {"x", "z"}} \union
  {[op |-> "fill", alpha |-> "7", x |-> "y"]} \union
  {[op |-> "fillat", alpha |-> "2", ord |-> o, val |-> v, x |-> "x"] : o \in {<<0>>, <<1>>, <<1, 0>>}, v \in {<<"4">>, <<"4", "-6">>}} \union
  {[op |-> f, x |-> p] : f \in {"norm", "sum", "max", "min"}, p \in {"x", "y"}} \union
  {[op |-> "dot", x |-> "x", y |-> q] : q \in VN} \union
  {[op |-> "extract", stride |-> 2, off |-> 1, x |-> "x", y |-> "z"]}
WsOps ==
  {[op |-> "wupdate", alpha |-> "2", x |-> p, beta |-> "-1", y |-> q] : p \in {"x", "u"}, q \in {"x", "u", "y"}} \union
  {[op |-> "waxpy", alpha |-> "3", stride |-> 2, off |-> o, x |-> "x", y |-> "y"] : o \in {0, 1}} \union
  {[op |-> "wextract", stride |-> 2, off |-> o, x |-> "y", y |-> "u"] : o \in {0, 1}} \union
  {[op |-> "wextractn", n |-> 2, stride |-> 2, dim |-> 1, off |-> 0, x |-> "y", y |-> "x"]} \union
  {[op |-> "mtv", trans |-> t, alpha |-> "2", a |-> "a", x |-> "x", beta |-> be, y |-> "u"] : t \in {"N", "n", "T", "t", "C"}, be \in {"0", "1"}} \union
  {[op |-> "wfill", alpha |-> "3", x |-> "x"], [op |-> "wscale", alpha |-> "-2", x |-> "y"],
   [op |-> "identity", n |-> 2, r |-> 2, c |-> 2, a |-> "b"], [op |-> "identity", n |-> 3, r |-> 2, c |-> 2, a |-> "b"],
   [op |-> "afill", n |-> 1, r |-> 2, c |-> 2, alpha |-> "4", a |-> "a"],
   [op |-> "aupdate", n |-> 2, alpha |-> "1", a |-> "a", beta |-> "-1", b |-> "b"],
   [op |-> "multiply", n |-> 2, alpha |-> "1", a |-> "a", b |-> "a", beta |-> "2", c |-> "b"],
   [op |-> "multiply", n |-> 1, alpha |-> "1", a |-> "a", b |-> "a", beta |-> "2", c |-> "b"]}
Ops == IF Kind = "vec" THEN VecOps ELSE WsOps

Init == st = Setup(Init0, Pre) /\ hist = <<>> /\ res = "0"
Next == /\ Len(hist) < Depth
        /\ \E o \in Ops : LET t == Step(st, o) IN st' = t.st /\ res' = t.r /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<st, hist, res>>

(* ------------------------------- laws -------------------------------------- *)
\* norm and dot: Cauchy-Schwarz, symmetry, and linearity of dot in axpy
Ones(n) == [i \in 1..n |-> "1"]
InnerProduct == Kind = "vec" =>
  LET x == st.v["x"]  y == st.v["y"] IN
  /\ REq(RDot(x, y), RDot(y, x))
  /\ RLeq(RMul(RDot(x, y), RDot(x, y)), RMul(RDot(x, x), RDot(y, y)))
  /\ REq(RDot(VAxpy("2", x, y), x), RAdd(RMul("2", RDot(x, x)), RDot(y, x)))
  /\ REq(RSum(x), RDot(x, Ones(Len(x))))
Bounds == Kind = "vec" => \A k \in {"x", "y"} : LET x == st.v[k] IN
  /\ RLeq(MinOf(x), MaxOf(x)) /\ RLeq(RSum(x), RMul(Len(x), MaxOf(x))) /\ RLeq(RMul(Len(x), MinOf(x)), RSum(x))
ShapesKept == \A k \in DOMAIN st.v : Len(st.v[k]) = Len(Setup(Init0, Pre).v[k])
\* (A x) . u = x . (A' u), cell by cell, computed by the operations themselves
Adjoint == Kind = "ws" =>
  LET one(t, p, q) == Step(st, [op |-> "mtv", trans |-> t, alpha |-> "1", a |-> "a", x |-> p, beta |-> "0", y |-> q]).st.w[q].x
  IN \A c \in 1..2 : REq(RDot(one("N", "x", "u")[c], st.w["u"].x[c]), RDot(st.w["x"].x[c], one("T", "u", "x")[c]))
\* a product of worksets applied to a vector is the product applied factor by factor
MultiplyAssoc == Kind = "ws" =>
  LET s1 == Step(st, [op |-> "multiply", n |-> 2, alpha |-> "1", a |-> "a", b |-> "a", beta |-> "0", c |-> "b"]).st
      mv(s, m, p) == Step(s, [op |-> "mtv", trans |-> "N", alpha |-> "1", a |-> m, x |-> p, beta |-> "0", y |-> "u"]).st
  IN \A c \in 1..2 : VEq(mv(s1, "b", "x").w["u"].x[c], MVec(st.a["a"].x[c], MVec(st.a["a"].x[c], st.w["x"].x[c])))
ExtractInvertsAxpy == Kind = "ws" =>    \* what axpy puts at an offset, extract reads back
  \A o \in {0, 1} :
  LET t == Step(st, [op |-> "waxpy", alpha |-> "0", stride |-> 2, off |-> o, x |-> "x", y |-> "y"]).st
      q == Step(t, [op |-> "wextract", stride |-> 2, off |-> o, x |-> "y", y |-> "u"]).st
  IN MEq(q.w["u"].x, st.w["x"].x)

Emit == Len(hist) = Depth => PrintT("SCEN " \o ToJson(Pre \o hist))
=============================================================================
