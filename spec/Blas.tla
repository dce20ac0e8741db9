-------------------------------- MODULE Blas --------------------------------
(* Vector (BLAS1) and workset (BLAS2, BLAS3) linear algebra.                  *)
(* State: named registers -- vectors v, worksets w (one row per cell) and     *)
(* matrix worksets a (one matrix per cell); w and a carry their extents d.    *)
(* Step(s, e) is the transition of operation e: it either rejects the call    *)
(* (err) and changes nothing, or yields the next registers and a result r.    *)
EXTENDS Vec, FiniteSets, TLC

Upd(f, k, x) == (k :> x) @@ f
Rej(s)       == [err |-> TRUE, st |-> s, r |-> "0"]
Go(s)        == [err |-> FALSE, st |-> s, r |-> "0"]
Val(s, r)    == [err |-> FALSE, st |-> s, r |-> r]
SetV(s, k, x) == Go([s EXCEPT !.v = Upd(s.v, k, x)])
SetW(s, k, x) == Go([s EXCEPT !.w = Upd(s.w, k, [d |-> s.w[k].d, x |-> x])])
SetA(s, k, x) == Go([s EXCEPT !.a = Upd(s.a, k, [d |-> s.a[k].d, x |-> x])])

MaxOf(x) == x[CHOOSE i \in 1..Len(x) : \A j \in 1..Len(x) : RLeq(x[j], x[i])]
MinOf(x) == x[CHOOSE i \in 1..Len(x) : \A j \in 1..Len(x) : RLeq(x[i], x[j])]
Empty2(W) == W.d[1] * W.d[2] = 0
Empty3(A) == A.d[1] * A.d[2] * A.d[3] = 0
\* w with cell rows rewritten entry by entry: f(c, j), 1-based
Map2(W, f(_, _)) == [c \in 1..W.d[1] |-> [j \in 1..W.d[2] |-> f(c, j)]]
Map3(A, f(_, _, _)) == [c \in 1..A.d[1] |-> [i \in 1..A.d[2] |-> [j \in 1..A.d[3] |-> f(c, i, j)]]]
Comb(al, x, be, y) == RAdd(RMul(al, x), RMul(be, y))

Step(s, e) ==
  CASE e.op = "vec" -> SetV(s, e.x, e.v)
  [] e.op = "ws"  -> Go([s EXCEPT !.w = Upd(s.w, e.x, [d |-> e.d, x |-> e.v])])
  [] e.op = "arr" -> Go([s EXCEPT !.a = Upd(s.a, e.x, [d |-> e.d, x |-> e.v])])
  \* ---- vectors
  [] e.op = "dot"  -> LET x == s.v[e.x]  y == s.v[e.y] IN IF Len(x) # Len(y) THEN Rej(s) ELSE Val(s, RDot(x, y))
  [] e.op = "norm" -> LET x == s.v[e.x] IN IF x = <<>> THEN Rej(s) ELSE Val(s, RSqrt(RDot(x, x)))
  [] e.op = "fill" -> LET x == s.v[e.x] IN IF x = <<>> \/ ~RFin(e.alpha) THEN Rej(s) ELSE SetV(s, e.x, [i \in 1..Len(x) |-> e.alpha])
  [] e.op = "fillat" ->
       LET x == s.v[e.x] IN
       IF x = <<>> \/ e.val = <<>> \/ ~RFin(e.alpha) \/ Len(e.ord) # Len(e.val) THEN Rej(s)
       ELSE SetV(s, e.x, [i \in 1..Len(x) |->
              IF \E k \in 1..Len(e.ord) : e.ord[k] = i - 1
              THEN RMul(e.alpha, e.val[CHOOSE k \in 1..Len(e.ord) : e.ord[k] = i - 1]) ELSE x[i]])
  [] e.op = "copy"  -> LET x == s.v[e.x]  y == s.v[e.y] IN IF Len(x) # Len(y) THEN Rej(s) ELSE SetV(s, e.y, x)
  [] e.op = "scale" -> LET x == s.v[e.x] IN IF x = <<>> \/ ~RFin(e.alpha) THEN Rej(s) ELSE SetV(s, e.x, VScale(e.alpha, x))
  [] e.op = "axpy"  -> LET x == s.v[e.x]  y == s.v[e.y] IN IF Len(x) # Len(y) THEN Rej(s) ELSE SetV(s, e.y, VAxpy(e.alpha, x, y))
  [] e.op = "update" ->
       LET x == s.v[e.x]  y == s.v[e.y] IN
       IF Len(x) # Len(y) \/ ~RFin(e.alpha) \/ ~RFin(e.beta) THEN Rej(s)
       ELSE SetV(s, e.y, [i \in 1..Len(x) |-> Comb(e.alpha, x[i], e.beta, y[i])])
  [] e.op = "sum" -> LET x == s.v[e.x] IN IF x = <<>> THEN Rej(s) ELSE Val(s, RSum(x))
  [] e.op = "max" -> LET x == s.v[e.x] IN IF x = <<>> THEN Rej(s) ELSE Val(s, MaxOf(x))
  [] e.op = "min" -> LET x == s.v[e.x] IN IF x = <<>> THEN Rej(s) ELSE Val(s, MinOf(x))
  [] e.op = "extract" ->
       LET x == s.v[e.x]  y == s.v[e.y] IN
       IF x = <<>> \/ y = <<>> THEN Rej(s) ELSE SetV(s, e.y, [i \in 1..Len(y) |-> x[(i - 1) * e.stride + e.off + 1]])
  \* ---- worksets
  [] e.op = "wextract" ->
       LET X == s.w[e.x]  Y == s.w[e.y] IN SetW(s, e.y, Map2(Y, LAMBDA c, j : X.x[c][(j - 1) * e.stride + e.off + 1]))
  [] e.op = "wextractn" ->
       LET X == s.w[e.x]  Y == s.w[e.y] IN
       SetW(s, e.y, Map2(Y, LAMBDA c, j : IF (j - 1) \div e.dim < e.n
                                          THEN X.x[c][((j - 1) \div e.dim) * e.stride + ((j - 1) % e.dim) + e.off + 1] ELSE Y.x[c][j]))
  [] e.op = "wfill"  -> LET X == s.w[e.x] IN IF Empty2(X) THEN Rej(s) ELSE SetW(s, e.x, Map2(X, LAMBDA c, j : e.alpha))
  [] e.op = "wscale" -> LET X == s.w[e.x] IN IF Empty2(X) THEN Rej(s) ELSE SetW(s, e.x, Map2(X, LAMBDA c, j : RMul(e.alpha, X.x[c][j])))
  [] e.op = "wupdate" ->
       LET X == s.w[e.x]  Y == s.w[e.y] IN
       IF X.d # Y.d THEN Rej(s) ELSE SetW(s, e.y, Map2(Y, LAMBDA c, j : Comb(e.alpha, X.x[c][j], e.beta, Y.x[c][j])))
  [] e.op = "waxpy" ->      \* out[dof] = alpha out[dof] + in, on the dofs at the given offset of every node
       LET X == s.w[e.x]  Y == s.w[e.y] IN
       IF Empty2(X) \/ Empty2(Y) \/ X.d[1] # Y.d[1] THEN Rej(s)
       ELSE SetW(s, e.y, Map2(Y, LAMBDA c, j :
              IF (j - 1) % e.stride = e.off /\ (j - 1) \div e.stride < X.d[2]
              THEN RAdd(RMul(e.alpha, Y.x[c][j]), X.x[c][((j - 1) \div e.stride) + 1]) ELSE Y.x[c][j]))
  [] e.op = "mtv" ->
       LET A == s.a[e.a]  X == s.w[e.x]  Y == s.w[e.y]
           tr == e.trans \in {"T", "t"}
           n == IF tr THEN A.d[3] ELSE A.d[2]
           row(c, j) == IF tr THEN [i \in 1..A.d[2] |-> A.x[c][i][j]] ELSE A.x[c][j]
       IN IF Empty3(A) \/ Empty2(X) \/ Empty2(Y) \/ A.d[1] # X.d[1] \/ A.d[1] # Y.d[1] \/ e.trans \notin {"N", "n", "T", "t"} THEN Rej(s)
          ELSE SetW(s, e.y, Map2(Y, LAMBDA c, j :
                 IF j > n THEN Y.x[c][j]
                 ELSE RAdd(RMul(e.beta, Y.x[c][j]), RMul(e.alpha, RDot(row(c, j), [i \in 1..Len(row(c, j)) |-> X.x[c][i]])))))
  [] e.op = "identity" ->
       LET A == s.a[e.a] IN
       IF Empty3(A) \/ A.d[1] # e.n THEN Rej(s)
       ELSE SetA(s, e.a, Map3(A, LAMBDA c, i, j : IF i <= e.r /\ j <= e.c THEN (IF i = j THEN "1" ELSE "0") ELSE A.x[c][i][j]))
  [] e.op = "afill" ->
       LET A == s.a[e.a] IN
       IF Empty3(A) \/ e.n <= 0 THEN Rej(s)
       ELSE SetA(s, e.a, Map3(A, LAMBDA c, i, j : IF c <= e.n /\ i <= e.r /\ j <= e.c THEN e.alpha ELSE A.x[c][i][j]))
  [] e.op = "aupdate" ->
       LET A == s.a[e.a]  B == s.a[e.b] IN
       IF Empty3(A) \/ Empty3(B) \/ A.d[2] # B.d[2] \/ A.d[3] # B.d[3] \/ e.n <= 0 THEN Rej(s)
       ELSE SetA(s, e.b, Map3(B, LAMBDA c, i, j : IF c <= e.n THEN Comb(e.alpha, A.x[c][i][j], e.beta, B.x[c][i][j]) ELSE B.x[c][i][j]))
  [] e.op = "multiply" ->
       LET A == s.a[e.a]  B == s.a[e.b]  C == s.a[e.c] IN
       IF Empty3(A) \/ Empty3(B) \/ Empty3(C) \/ A.d[3] # B.d[2] \/ A.d[2] # C.d[2] \/ B.d[3] # C.d[3]
          \/ A.d[1] # e.n \/ B.d[1] # e.n \/ C.d[1] # e.n THEN Rej(s)
       ELSE SetA(s, e.c, Map3(C, LAMBDA c, i, j :
              RAdd(RMul(e.beta, C.x[c][i][j]), RMul(e.alpha, RDot(A.x[c][i], [k \in 1..A.d[3] |-> B.x[c][k][j]])))))
  [] OTHER -> Assert(FALSE, <<"unknown operation", e.op>>)

(* --------------------- judging what the code did --------------------------- *)
WEq(X, Y)    == X.d = Y.d /\ MEq(X.x, Y.x)
WClose(X, Y) == X.d = Y.d /\ MClose(X.x, Y.x)
AEqR(X, Y)    == X.d = Y.d /\ AEq(X.x, Y.x)
ACloseR(X, Y) == X.d = Y.d /\ AClose(X.x, Y.x)
\* the registers read back are t; those an operation did not write (equal in s and t) are bitwise unchanged
Match(s, t, o) ==
  /\ DOMAIN o.v = DOMAIN t.v /\ DOMAIN o.w = DOMAIN t.w /\ DOMAIN o.a = DOMAIN t.a
  /\ \A k \in DOMAIN t.v : IF k \in DOMAIN s.v /\ s.v[k] = t.v[k] THEN VEq(o.v[k], t.v[k]) ELSE VClose(o.v[k], t.v[k])
  /\ \A k \in DOMAIN t.w : IF k \in DOMAIN s.w /\ s.w[k] = t.w[k] THEN WEq(o.w[k], t.w[k]) ELSE WClose(o.w[k], t.w[k])
  /\ \A k \in DOMAIN t.a : IF k \in DOMAIN s.a /\ s.a[k] = t.a[k] THEN AEqR(o.a[k], t.a[k]) ELSE ACloseR(o.a[k], t.a[k])
Obs(o) == [v |-> o.v, w |-> o.w, a |-> o.a]

\* inverse: b[c] is the inverse of a[c]; a is scratch space afterwards
InverseOK(s, e, o) ==
  LET A == s.a[e.a]  B == o.a[e.b] IN
  /\ Match(s, [Obs(o) EXCEPT !.v = s.v, !.w = s.w], o)
  /\ DOMAIN o.a = DOMAIN s.a
  /\ \A k \in DOMAIN s.a \ {e.a, e.b} : AEqR(o.a[k], s.a[k])
  /\ B.d = s.a[e.b].d /\ o.a[e.a].d = A.d
  /\ \A c \in 1..A.d[1] : MClose(MIdent(A.d[2]), MMul(A.x[c], B.x[c]))

JudgeB(s, e) ==
  LET o == e.out
      ok == [v |-> "ok", why |-> "", st |-> Obs(o)]
      bad(w) == [v |-> "bad", why |-> w, st |-> s]
  IN
  CASE e.op = "random" ->
         LET x == o.v[e.x] IN
         IF ~e.exc /\ Match(s, [s EXCEPT !.v = Upd(s.v, e.x, x)], o) /\ Len(x) = Len(s.v[e.x])
            /\ (\A i \in 1..Len(x) : RLeq(e.lo, x[i]) /\ RLeq(x[i], e.hi))
            \* the same call always gives the same numbers
            /\ (\A k \in DOMAIN s.rnd : (k[1] = e.lo /\ k[2] = e.hi) =>
                  \A i \in 1..Len(x) : i <= Len(s.rnd[k]) => REq(s.rnd[k][i], x[i]))
         THEN [v |-> "ok", why |-> "", st |-> [v |-> o.v, w |-> o.w, a |-> o.a, rnd |-> Upd(s.rnd, <<e.lo, e.hi>>, x)]]
         ELSE bad("random numbers out of bounds or not reproducible")
  [] e.op = "inverse" ->
         LET A == s.a[e.a]  B == s.a[e.b]
             rej == Empty3(A) \/ Empty3(B) \/ A.d[1] * A.d[2] * A.d[3] # B.d[1] * B.d[2] * B.d[3] \/ B.d[1] # e.n
         IN IF rej THEN (IF e.exc /\ Match(s, s, o) THEN ok ELSE bad("invalid arguments must be rejected without effect"))
            ELSE IF ~e.exc /\ InverseOK(s, e, o) THEN ok ELSE bad("the result is not the inverse")
  [] OTHER ->
         LET t == Step(s, e) IN
         IF t.err THEN (IF e.exc /\ Match(s, s, o) THEN ok ELSE bad("invalid arguments must be rejected without effect"))
         ELSE IF e.exc THEN bad("a valid call was rejected")
         ELSE IF ~Match(s, t.st, o) THEN bad("a register does not hold the specified value")
         ELSE IF e.op \in {"dot", "norm", "sum", "max", "min"} /\ ~RClose(o.r, t.r) THEN bad("the result is wrong")
         ELSE ok
Judge1(s, e) == LET r == JudgeB(s, e) IN
  IF "rnd" \in DOMAIN r.st THEN r ELSE [r EXCEPT !.st = [v |-> @.v, w |-> @.w, a |-> @.a, rnd |-> s.rnd]]
Init0 == [v |-> <<>>, w |-> <<>>, a |-> <<>>, rnd |-> <<>>]
=============================================================================
