-------------------------------- MODULE Expr --------------------------------
(* Arithmetic expressions in material models: grammar, meaning, and the life  *)
(* cycle of an evaluator (parse, validate, evaluate, re-parse, clear).        *)
(* An expression is a sequence of tokens [k |-> kind, t |-> text]; kinds:     *)
(* num, pi, var, fn, pow, op, round brackets, bar, comma, bad.              *)
(*                                                                            *)
(*   expr    ::= term { [+|-] term }                                        *)
(*   term    ::= power { [* or /] power }  also `)(` is a multiplication    *)
(*   power   ::= signed [ ^ power ]                                           *)
(*   signed  ::= [+|-] postfix              a sign binds tighter than ^       *)
(*   postfix ::= primary { ! }                                                *)
(*   primary ::= num | PI | var | ( expr ) | |expr| | fn ( expr )             *)
(*             | pow ( expr , expr )                                          *)
(* Bars nest only through parentheses.  x / 0 is 0.                           *)
EXTENDS Rat, FiniteSets, TLC

PiNum == "0x1.921fb54442d18p+1"
Leaf(k, t)    == [n |-> k, t |-> t, a |-> <<>>]
Node(k, a)    == [n |-> k, t |-> "", a |-> a]
Fail          == [ok |-> FALSE, p |-> 0, x |-> Leaf("none", "")]
Done(p, x)    == [ok |-> TRUE, p |-> p, x |-> x]

K(q, p) == IF p <= Len(q) THEN q[p].k ELSE "end"
T(q, p) == IF p <= Len(q) THEN q[p].t ELSE ""
IsOp(q, p, s) == K(q, p) = "op" /\ T(q, p) \in s

\* bar: inside an unclosed bar at this parenthesis level
RECURSIVE PExpr(_, _, _), PTerm(_, _, _), PPower(_, _, _), PSigned(_, _, _), PPostfix(_, _, _), PPrimary(_, _, _),
          ExprTail(_, _, _, _), TermTail(_, _, _, _), PostTail(_, _, _)
PExpr(q, p, bar) == LET l == PTerm(q, p, bar) IN IF ~l.ok THEN Fail ELSE ExprTail(q, l.p, l.x, bar)
ExprTail(q, p, x, bar) ==
  IF ~IsOp(q, p, {"+", "-"}) THEN Done(p, x)
  ELSE LET r == PTerm(q, p + 1, bar) IN IF ~r.ok THEN Fail ELSE ExprTail(q, r.p, Node(T(q, p), <<x, r.x>>), bar)
PTerm(q, p, bar) == LET l == PPower(q, p, bar) IN IF ~l.ok THEN Fail ELSE TermTail(q, l.p, l.x, bar)
TermTail(q, p, x, bar) ==
  IF IsOp(q, p, {"*", "/"})
  THEN LET r == PPower(q, p + 1, bar) IN IF ~r.ok THEN Fail ELSE TermTail(q, r.p, Node(T(q, p), <<x, r.x>>), bar)
  ELSE IF p > 1 /\ K(q, p - 1) = ")" /\ K(q, p) \in {"(", "pow"}
  THEN LET r == PPower(q, p, bar) IN IF ~r.ok THEN Fail ELSE TermTail(q, r.p, Node("*", <<x, r.x>>), bar)
  ELSE Done(p, x)
PPower(q, p, bar) ==
  LET l == PSigned(q, p, bar) IN
  IF ~l.ok THEN Fail
  ELSE IF ~IsOp(q, l.p, {"^"}) THEN l
  ELSE LET r == PPower(q, l.p + 1, bar) IN IF ~r.ok THEN Fail ELSE Done(r.p, Node("^", <<l.x, r.x>>))
PSigned(q, p, bar) ==
  IF IsOp(q, p, {"+", "-"})
  THEN LET r == PPostfix(q, p + 1, bar) IN IF ~r.ok THEN Fail ELSE Done(r.p, Node(IF T(q, p) = "+" THEN "pos" ELSE "neg", <<r.x>>))
  ELSE PPostfix(q, p, bar)
PPostfix(q, p, bar) == LET l == PPrimary(q, p, bar) IN IF ~l.ok THEN Fail ELSE PostTail(q, l.p, l.x)
PostTail(q, p, x) == IF IsOp(q, p, {"!"}) THEN PostTail(q, p + 1, Node("!", <<x>>)) ELSE Done(p, x)
PPrimary(q, p, bar) ==
  CASE K(q, p) = "num" -> Done(p + 1, Leaf("num", T(q, p)))
    [] K(q, p) = "pi"  -> Done(p + 1, Leaf("num", PiNum))
    [] K(q, p) = "var" -> Done(p + 1, Leaf("var", T(q, p)))
    [] K(q, p) = "("   -> LET r == PExpr(q, p + 1, FALSE) IN IF r.ok /\ K(q, r.p) = ")" THEN Done(r.p + 1, r.x) ELSE Fail
    [] K(q, p) = "|"   -> IF bar THEN Fail
                          ELSE LET r == PExpr(q, p + 1, TRUE) IN IF r.ok /\ K(q, r.p) = "|" THEN Done(r.p + 1, Node("abs", <<r.x>>)) ELSE Fail
    [] K(q, p) = "fn"  -> IF K(q, p + 1) # "(" THEN Fail
                          ELSE LET r == PExpr(q, p + 2, FALSE) IN IF r.ok /\ K(q, r.p) = ")" THEN Done(r.p + 1, Node(T(q, p), <<r.x>>)) ELSE Fail
    [] K(q, p) = "pow" -> IF K(q, p + 1) # "(" THEN Fail
                          ELSE LET a == PExpr(q, p + 2, FALSE) IN
                               IF ~a.ok \/ K(q, a.p) # "," THEN Fail
                               ELSE LET b == PExpr(q, a.p + 1, FALSE) IN
                                    IF b.ok /\ K(q, b.p) = ")" THEN Done(b.p + 1, Node("^", <<a.x, b.x>>)) ELSE Fail
    [] OTHER -> Fail
Parse(q) == LET r == PExpr(q, 1, FALSE) IN IF r.ok /\ r.p = Len(q) + 1 THEN r ELSE Fail
\* spellings the grammar leaves open: a function applied to something that is not in parentheses
Gray(q) == \E p \in 1..(Len(q) - 1) : q[p].k = "fn" /\ (q[p + 1].k \in {"|", "pow"} \/ (q[p + 1].k = "op" /\ q[p + 1].t \in {"+", "-"}))

RECURSIVE Fact(_)
Fact(n) == IF n <= 0 THEN "1" ELSE RMul(n, Fact(n - 1))
RECURSIVE Vars(_), Eval(_, _), IntTree(_, _), Sharp(_, _)
Vars(x) == IF x.n = "var" THEN {x.t} ELSE UNION {Vars(x.a[i]) : i \in 1..Len(x.a)}
Eval(x, env) ==
  CASE x.n = "num" -> RNum(x.t)
    [] x.n = "var" -> RNum(env[x.t])
    [] OTHER ->
       LET a == Eval(x.a[1], env)  b == IF Len(x.a) = 2 THEN Eval(x.a[2], env) ELSE "0" IN
       CASE x.n = "+" -> RAdd(a, b) [] x.n = "-" -> RSub(a, b) [] x.n = "*" -> RMul(a, b)
         [] x.n = "/" -> IF REq(b, "0") THEN "0" ELSE RDiv(a, b)
         [] x.n = "^" -> RPow(a, b)
         [] x.n = "!" -> IF RFin(a) THEN Fact(RTrunc(a)) ELSE "nan"
         [] x.n = "pos" -> a [] x.n = "neg" -> RNeg(a) [] x.n = "abs" -> RAbs(a)
         [] x.n = "sin" -> RSin(a) [] x.n = "cos" -> RCos(a) [] x.n = "tan" -> RTan(a)
         [] x.n = "exp" -> RExp(a) [] x.n = "log" -> RLn(a) [] x.n = "sqrt" -> RSqrt(a)
\* integers in, ring operations only: floating point is exact
IntTree(x, env) ==
  CASE x.n \in {"num", "var"} -> RIsInt(Eval(x, env))
    [] x.n \in {"+", "-", "*", "pos", "neg", "abs"} -> \A i \in 1..Len(x.a) : IntTree(x.a[i], env)
    [] OTHER -> FALSE
Sane(v) == RFin(v) /\ RLt(RAbs(v), "1e40")
\* floating point determines the value: no decision of the evaluation hangs on rounding or overflow
Sharp(x, env) ==
  /\ \A i \in 1..Len(x.a) : Sharp(x.a[i], env)
  /\ \A i \in 1..Len(x.a) : Sane(Eval(x.a[i], env))
  /\ x.n = "/" => LET b == Eval(x.a[2], env) IN ~RTie(b, "0") \/ (REq(b, "0") /\ IntTree(x.a[2], env))
  /\ x.n = "!" => LET a == Eval(x.a[1], env) IN IntTree(x.a[1], env) /\ RLeq("0", a) /\ RLeq(a, "20")
  /\ x.n = "^" => LET a == Eval(x.a[1], env)  b == Eval(x.a[2], env) IN
                  /\ RLeq(RAbs(b), "60") /\ ((RLeq("0", a) /\ ~RTie(a, "0")) \/ (IntTree(x.a[2], env) /\ (~RTie(a, "0") \/ IntTree(x.a[1], env))))
  /\ x.n \in {"log", "sqrt"} => LET a == Eval(x.a[1], env) IN ~RTie(a, "0") \/ IntTree(x.a[1], env)
  /\ x.n = "exp" => RLeq(RAbs(Eval(x.a[1], env)), "80")
  /\ x.n \in {"sin", "cos", "tan"} => RLeq(RAbs(Eval(x.a[1], env)), "1000")

(* ------------------------------ judging ------------------------------------ *)
Unknown(x, env) == Vars(x) \ DOMAIN env # {}
ValueOK(r, x, env) == ~Sharp(x, env) \/ RClose(r, Eval(x, env))
\* an evaluator holds: "none" (nothing), "tree" (x), "any" (malformed but not yet rejected, or unspecified)
Holds(w, x) == [w |-> w, x |-> x]
None == Holds("none", Leaf("none", ""))
Open == Holds("any", Leaf("none", ""))

\* the outcome of one complete calculation
CalcOK(q, env, e) ==
  IF Gray(q) THEN TRUE
  ELSE LET r == Parse(q) IN
    IF ~r.ok THEN e.exc
    ELSE IF Unknown(r.x, env) THEN e.exc
    ELSE ~e.exc /\ ValueOK(e.out.r, r.x, env)

\* which text a custom material evaluates: the named equation, else the indexed line after the header of the Bingo file
HeaderAt(L) == IF \E i \in 1..Len(L) : L[i].k = "header" THEN CHOOSE i \in 1..Len(L) : L[i].k = "header" /\ \A j \in 1..(i - 1) : L[j].k # "header" ELSE 0
CustomPick(e) ==
  LET name == IF e.mode \in {"name", "both"} THEN e.name ELSE "Equation"
      idx0 == IF e.mode \in {"index", "both"} THEN e.index ELSE -1
      idx  == IF idx0 >= 0 THEN idx0 ELSE IF e.bindex >= 0 THEN e.bindex ELSE 0
  IN IF name \in DOMAIN e.eqs THEN [ok |-> TRUE, q |-> e.eqs[name].toks]
     ELSE IF e.bingo # "file" THEN [ok |-> FALSE, q |-> <<>>]
     ELSE LET h == HeaderAt(e.lines)  p == h + 1 + idx IN
          IF h = 0 \/ p > Len(e.lines) THEN [ok |-> FALSE, q |-> <<>>]
          ELSE IF e.lines[p].k # "eq" THEN [ok |-> FALSE, q |-> <<>>]
          ELSE [ok |-> TRUE, q |-> e.lines[p].toks]

Upd(f, k, x) == (k :> x) @@ f
Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      set(h) == Upd(s, e.E, [env |-> s[e.E].env, h |-> h])
  IN
  CASE e.op = "new" -> IF e.exc THEN bad("construction failed") ELSE ok(Upd(s, e.E, [env |-> e.env, h |-> None]))
  [] e.op = "drop" -> IF e.exc THEN bad("destruction failed") ELSE ok([k \in DOMAIN s \ {e.E} |-> s[k]])
  [] e.op = "null" -> IF e.exc THEN bad("parsing nothing must not fail") ELSE ok(set(None))
  [] e.op = "clear" -> IF e.exc THEN bad("clearing must not fail") ELSE ok(set(None))
  [] e.op = "parse" ->
       LET r == Parse(e.toks) IN
       IF Gray(e.toks) THEN ok(set(IF e.exc THEN None ELSE Open))
       ELSE IF r.ok THEN (IF e.exc THEN bad("a well-formed expression was rejected") ELSE ok(set(Holds("tree", r.x))))
       ELSE ok(set(IF e.exc THEN None ELSE Holds("malformed", r.x)))
  [] e.op = "validate" ->
       LET h == s[e.E].h IN
       CASE h.w = "tree" -> IF e.exc THEN bad("a well-formed expression does not validate")
                            ELSE IF e.out.r # 0 THEN bad("a well-formed expression does not validate") ELSE ok(s)
         [] h.w = "malformed" -> IF e.exc \/ e.out.r # 0 THEN ok(s) ELSE bad("a malformed expression was accepted by parsing and validation")
         [] h.w = "none" -> IF e.exc THEN bad("an empty evaluator must validate") ELSE ok(s)
         [] OTHER -> ok(s)
  [] e.op = "eval" ->
       LET h == s[e.E].h  env == s[e.E].env IN
       CASE h.w = "tree" -> IF Unknown(h.x, env) THEN (IF e.exc THEN ok(s) ELSE bad("an undefined variable must be rejected"))
                            ELSE IF e.exc THEN bad("evaluation failed")
                            ELSE IF ValueOK(e.out.r, h.x, env) THEN ok(s) ELSE bad("the value of the expression is wrong")
         [] h.w = "none" -> IF ~e.exc /\ REq(e.out.r, "0") THEN ok(s) ELSE bad("an evaluator without expression must give zero")
         [] OTHER -> ok(s)
  [] e.op = "calc" ->
       IF CalcOK(e.toks, e.env, e) THEN ok(s) ELSE bad("the expression is not given its meaning (or a malformed one is accepted)")
  [] e.op = "custom" ->
       LET p == CustomPick(e) IN
       IF ~p.ok THEN (IF e.exc THEN ok(s) ELSE bad("a missing equation must be rejected"))
       ELSE IF CalcOK(p.q, e.env, e) THEN ok(s) ELSE bad("the custom equation has the wrong value, or the wrong equation was used")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
