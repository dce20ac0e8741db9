-------------------------------- MODULE Comm --------------------------------
(* Machines: groups of processes that reduce together.  A world of N          *)
(* processes (numbered from 1 here); machine "world" has all of them; a split *)
(* puts every process of one colour into one machine, ordered by key then by  *)
(* number; colour -1 leaves it out.                                           *)
EXTENDS Rat, FiniteSets, TLC

Upd(f, k, x) == (k :> x) @@ f
WorldM(n) == [color |-> [p \in 1..n |-> 0], key |-> [p \in 1..n |-> 0]]
Members(m, p) == {q \in 1..Len(m.color) : m.color[q] = m.color[p]}
Joined(m, p) == m.color[p] >= 0
Before(m, q, p) == m.key[q] < m.key[p] \/ (m.key[q] = m.key[p] /\ q < p)
Size(m, p) == Cardinality(Members(m, p))
Rank(m, p) == Cardinality({q \in Members(m, p) : Before(m, q, p)})
\* the members in the order of their ranks
Ordered(m, p) == [r \in 1..Size(m, p) |-> CHOOSE q \in Members(m, p) : Rank(m, q) = r - 1]
Contrib(m, p, v) == [r \in 1..Size(m, p) |-> v[Ordered(m, p)[r]]]
RECURSIVE Biggest(_), Smallest(_)
Biggest(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], Biggest(Tail(s)))
Smallest(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], Smallest(Tail(s)))
Scale(s) == RSum([i \in 1..Len(s) |-> RAbs(s[i])])
Reduce(kind, s) == CASE kind = "max" -> Biggest(s) [] kind = "min" -> Smallest(s) [] OTHER -> RSum(s)
\* sums may be taken in any order
SumOK(r, s) == RNear(r, RSum(s), Scale(s), "1e-15")

Judge1(s, e) ==
  LET ok(t)  == [v |-> "ok", why |-> "", st |-> t]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
      m == IF e.M = "world" THEN WorldM(4) ELSE IF e.M \in DOMAIN s THEN s[e.M] ELSE WorldM(4)
      each(P(_), w) == IF ~e.exc /\ Len(e.out.r) = 4 /\ \A p \in 1..4 : IF Joined(m, p) THEN P(p) ELSE e.out.r[p] = <<>> THEN ok(s) ELSE bad(w)
      summed(p) == Len(e.out.r[p]) = 1 /\ SumOK(e.out.r[p][1], Contrib(m, p, e.v))
  IN
  CASE e.op = "split" -> IF e.exc THEN bad("the machine was not built") ELSE ok(Upd(s, e.M, [color |-> e.color, key |-> e.key]))
  [] e.op = "who" -> each(LAMBDA p : e.out.r[p] = <<Size(m, p), Rank(m, p), Size(m, p), Rank(m, p)>>, "wrong size or rank")
  [] e.op = "reduce" /\ e.kind \in {"max", "min"} ->
       each(LAMBDA p : Len(e.out.r[p]) = 1 /\ REq(e.out.r[p][1], Reduce(e.kind, Contrib(m, p, e.v))), "wrong extreme over the machine")
  [] e.op \in {"reduce", "epetra"} -> each(summed, "wrong sum over the machine")
  [] e.op = "all" ->
       LET good(p) == Len(e.out.r[p]) = Len(e.v[p]) /\ \A k \in 1..Len(e.v[p]) : SumOK(e.out.r[p][k], Contrib(m, p, [q \in 1..4 |-> e.v[q][k]])) IN
       IF e.exc \/ e.out.kept # <<TRUE, TRUE, TRUE, TRUE>> THEN bad("the reduction wrote outside its result") ELSE each(good, "wrong sums over the machine")
  [] OTHER -> bad("unknown operation")
Init0 == <<>>
=============================================================================
