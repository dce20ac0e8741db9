------------------------------ MODULE MC_Expr ------------------------------
(* "tokens": every token sequence up to length MaxLen over a small alphabet,  *)
(* well-formed or not.  "trees": every tree of depth two, written with the    *)
(* fewest parentheses the grammar allows; it must read back as itself.        *)
(* "life": every history of one evaluator.                                    *)
EXTENDS Expr, Json

CONSTANTS Kind, MaxLen

VARIABLES c, hist, h

Op(t) == [k |-> "op", t |-> t]
Sym(t) == [k |-> t, t |-> t]
Num(t) == [k |-> "num", t |-> t]
Fn(t) == [k |-> "fn", t |-> t]
Var(t) == [k |-> "var", t |-> t]
PowT == [k |-> "pow", t |-> "pow"]
Alphabet == {Num("2"), Op("-"), Op("^"), Op("*"), Op("!"), Sym("("), Sym(")"), Sym("|"), Sym(","), PowT, Fn("abs")}
Env == [x |-> "3", y |-> "-2"]

(* ---- trees and their shortest text ---- *)
Leaves == {Leaf("num", "2"), Leaf("var", "x")}
Un == {"neg", "pos", "!", "abs", "sqrt"}
Bin == {"+", "-", "*", "/", "^"}
D1 == Leaves \union {Node(u, <<a>>) : u \in Un, a \in Leaves} \union {Node(b, <<x, y>>) : b \in Bin, x \in Leaves, y \in Leaves}
\* precedence of the text of a node: 1 sum, 2 product, 3 power, 4 signed, 5 postfix, 6 primary
Lvl(x) == CASE x.n \in {"+", "-"} -> 1 [] x.n \in {"*", "/"} -> 2 [] x.n = "^" -> 3 [] x.n \in {"neg", "pos"} -> 4 [] x.n = "!" -> 5 [] OTHER -> 6
RECURSIVE Txt(_)
Paren(x, l) == IF Lvl(x) >= l THEN Txt(x) ELSE <<Sym("(")>> \o Txt(x) \o <<Sym(")")>>
Txt(x) ==
  CASE x.n = "num" -> <<Num(x.t)>> [] x.n = "var" -> <<Var(x.t)>>
    [] x.n \in {"+", "-"} -> Paren(x.a[1], 1) \o <<Op(x.n)>> \o Paren(x.a[2], 2)
    [] x.n \in {"*", "/"} -> Paren(x.a[1], 2) \o <<Op(x.n)>> \o Paren(x.a[2], 3)
    [] x.n = "^" -> Paren(x.a[1], 4) \o <<Op("^")>> \o Paren(x.a[2], 3)
    [] x.n = "neg" -> <<Op("-")>> \o Paren(x.a[1], 5)
    [] x.n = "pos" -> <<Op("+")>> \o Paren(x.a[1], 5)
    [] x.n = "!" -> Paren(x.a[1], 5) \o <<Op("!")>>
    [] OTHER -> <<Fn(x.n), Sym("(")>> \o Txt(x.a[1]) \o <<Sym(")")>>
Trees == {Node(u, <<a>>) : u \in Un, a \in D1} \union {Node(b, <<x, y>>) : b \in Bin, x \in D1, y \in D1}

(* ---- histories of one evaluator ---- *)
Texts == {<<Num("2"), Op("*"), Var("x")>>, <<Var("z")>>, <<Op("*"), Num("2")>>, <<Sym("("), Num("2")>>, <<Num("5")>>}
LifeOps == {[op |-> "parse", E |-> "e", toks |-> q] : q \in Texts} \union
           {[op |-> o, E |-> "e"] : o \in {"null", "clear", "validate", "eval"}}
LifeStep(s, o) ==
  CASE o.op = "parse" -> LET r == Parse(o.toks) IN IF r.ok THEN Holds("tree", r.x) ELSE Holds("malformed", r.x)
    [] o.op \in {"null", "clear"} -> None
    [] OTHER -> s

(* ---- which equation a custom material uses ---- *)
Lines == {[k |-> "text", t |-> "1, 2, 7"], [k |-> "header", t |-> "FITNESS    COMPLEXITY    EQUATION"],
          [k |-> "eq", pre |-> "0.5, 3, ", toks |-> <<PowT, Sym("("), Var("x"), Sym(","), Num("2"), Sym(")")>>],
          [k |-> "eq", pre |-> "1,1,", toks |-> <<Num("5"), Op("*"), Var("y")>>]}
EqSets == {<<>>, [Equation |-> [toks |-> <<Var("x")>>]], [c0 |-> [toks |-> <<Num("7")>>]]}
\* a text line after the header is no equation of the grammar; keep the models to headers once and equations after it
WellOrdered(L) == \A i \in 1..Len(L) : (L[i].k = "eq" => \E j \in 1..(i - 1) : L[j].k = "header")
                                      /\ (L[i].k = "text" => \A j \in 1..(i - 1) : L[j].k # "header")
                                      /\ (L[i].k = "header" => \A j \in 1..(i - 1) : L[j].k # "header")
Files == {L \in UNION {[1..n -> Lines] : n \in 0..MaxLen} : WellOrdered(L)}
CustomEvents ==
  {[op |-> "custom", env |-> Env, eqs |-> q, bingo |-> b, lines |-> L, nl |-> nl, bindex |-> bi, mode |-> m, name |-> "c0", index |-> ix] :
     q \in EqSets, b \in {"file", "none"}, L \in Files, nl \in BOOLEAN, bi \in {-1, 0, 1}, m \in {"default", "name", "index", "both"}, ix \in {-1, 0, 1}}

Init ==
  CASE Kind = "custom" -> (\E e \in CustomEvents : c = e) /\ hist = <<>> /\ h = None
    [] Kind = "tokens" -> c = <<>> /\ hist = <<>> /\ h = None
    [] Kind = "trees" -> (\E x \in Trees : c = x) /\ hist = <<>> /\ h = None
    [] Kind = "life" -> c = <<>> /\ hist = <<>> /\ h = None
Next ==
  CASE Kind = "custom" -> UNCHANGED <<c, hist, h>>
    [] Kind = "tokens" -> Len(c) < MaxLen /\ (\E t \in Alphabet : c' = Append(c, t)) /\ UNCHANGED <<hist, h>>
    [] Kind = "trees" -> UNCHANGED <<c, hist, h>>
    [] Kind = "life" -> Len(hist) < MaxLen /\ (\E o \in LifeOps : hist' = Append(hist, o) /\ h' = LifeStep(h, o)) /\ UNCHANGED c
Spec == Init /\ [][Next]_<<c, hist, h>>

(* ------------------------------- laws -------------------------------------- *)
ReadsBack == Kind = "trees" => Parse(Txt(c)).ok /\ Parse(Txt(c)).x = c
\* a closing delimiter too many or too few is never well-formed; parentheses around a well-formed expression change nothing
Closed == Kind = "tokens" /\ c # <<>> => LET r == Parse(c) IN
  r.ok => /\ ~Parse(Append(c, Sym(")"))).ok /\ ~Parse(<<Sym("(")>> \o c).ok
          /\ Parse(<<Sym("(")>> \o c \o <<Sym(")")>>).x = r.x
          /\ ~Parse(Append(c, Num("2"))).ok
\* negation and sum are the group operations, whatever the operands
Group == Kind = "trees" => LET v == Eval(c, Env) IN
  Sane(v) => REq(Eval(Node("-", <<c, c>>), Env), "0") /\ REq(Eval(Node("neg", <<Node("neg", <<c>>)>>), Env), v)
LastParseWins == Kind = "life" /\ hist # <<>> => LET o == hist[Len(hist)] IN o.op = "parse" => (h.w = "tree") = Parse(o.toks).ok

\* a named equation wins whatever the file holds; text before the header and the final newline never matter; a Bingo
\* equation is used only if no named one exists
NamedWins == Kind = "custom" => LET p == CustomPick(c) IN
  /\ (c.mode \in {"name", "both"} /\ "c0" \in DOMAIN c.eqs => p = [ok |-> TRUE, q |-> c.eqs["c0"].toks])
  /\ (c.bingo # "file" /\ c.eqs = <<>> => ~p.ok)
PreambleFree == Kind = "custom" =>
  /\ CustomPick([c EXCEPT !.lines = <<[k |-> "text", t |-> "1, 2, 7"]>> \o @]) = CustomPick(c)
  /\ CustomPick([c EXCEPT !.nl = ~@]) = CustomPick(c)

Emit ==
  CASE Kind = "custom" -> PrintT("SCEN " \o ToJson(<<c>>))
    [] Kind = "tokens" -> PrintT("SCEN " \o ToJson(<<[op |-> "calc", toks |-> c, env |-> Env]>>))
    [] Kind = "trees" -> PrintT("SCEN " \o ToJson(<<[op |-> "calc", toks |-> Txt(c), env |-> Env]>>))
    [] Kind = "life" -> Len(hist) = MaxLen => PrintT("SCEN " \o ToJson(<<[op |-> "new", E |-> "e", env |-> Env]>> \o hist))
=============================================================================
