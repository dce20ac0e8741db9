----------------------------- MODULE MC_Sparse -----------------------------
(* Small-scope model of the sparse operations: every block pattern of 2 x 2   *)
(* node matrices with block shapes up to 2 x 2.  The invariants are the laws  *)
(* a client relies on; every state is also replayed on the implementation.    *)
EXTENDS Sparse, Json

CONSTANT Kind          \* "products" | "convert" | "bc" | "condense"

Nodes == 0..1
AllPat == SUBSET (Nodes \X Nodes)
FewPat == {{<<0,0>>, <<0,1>>, <<1,0>>, <<1,1>>}, {<<0,0>>, <<1,1>>}, {<<0,1>>, <<1,0>>}, {}, {<<0,1>>}}
PatRow(p, r) == SetToSortSeq({q[2] : q \in {q \in p : q[1] = r}}, <)
Num(k, salt) == ((k * 7 + salt * 3) % 11) - 4

\* the compressed matrix with pattern p, block shape rb x cb and enumerated entries
Mk(p, rb, cb, salt) ==
  LET c0 == PatRow(p, 0)  c1 == PatRow(p, 1)
  IN [rows |-> 2 * rb, cols |-> 2 * cb, rbs |-> rb, cbs |-> cb,
      rm |-> <<0, Len(c0), Len(c0) + Len(c1)>>, ci |-> c0 \o c1,
      en |-> [k \in 1..((Len(c0) + Len(c1)) * rb * cb) |-> RNum(Num(k, salt))]]
V(n, salt) == [i \in 1..n |-> RNum(Num(i * 3, salt))]

\* dense matrix D as a compressed matrix with all blocks stored
Full(D, rb, cb) ==
  LET nr == Len(D) \div rb   nc == MNCols(D) \div cb
  IN [rows |-> Len(D), cols |-> MNCols(D), rbs |-> rb, cbs |-> cb,
      rm |-> [i \in 1..(nr + 1) |-> (i - 1) * nc], ci |-> [k \in 1..(nr * nc) |-> (k - 1) % nc],
      en |-> [j \in 1..(Len(D) * MNCols(D)) |->
                LET k == (j - 1) \div (rb * cb)   l == (j - 1) % (rb * cb)
                IN D[(k \div nc) * rb + (l \div cb) + 1][(k % nc) * cb + (l % cb) + 1]]]
\* the plain form of M
Expand(M) ==
  LET ks(r) == RowLen(M, r)
      start(r) == IF r = 0 THEN 0 ELSE LET q == [i \in 1..r |-> ks(i - 1)] IN FoldSeq(+, 0, q)
      total == start(M.rows)
      rowOf(j) == CHOOSE r \in 0..(M.rows - 1) : start(r) < j /\ j <= start(r + 1)
  IN [rm |-> [i \in 1..(M.rows + 1) |-> start(i - 1)],
      ci |-> [j \in 1..total |-> RowCol(M, rowOf(j), j - start(rowOf(j)))],
      en |-> [j \in 1..total |-> RowVal(M, rowOf(j), j - start(rowOf(j)))]]

VARIABLES c         \* the case

Mats(rb, cb, pats, salts) == {Mk(p, rb, cb, s) : p \in pats, s \in salts}
Sizes == {1, 2}

Init ==
  CASE Kind = "products" ->
         \E ra \in Sizes, k \in Sizes, cb \in Sizes : \E A \in Mats(ra, k, AllPat, {1}), B \in Mats(k, cb, FewPat, {2}) :
            c = [A |-> A, B |-> B, x |-> V(2 * cb, 1), y |-> V(2 * ra, 3)]
  [] Kind = "convert" ->
         \E ra \in 1..3, cb \in 1..3 : \E A \in Mats(ra, cb, AllPat, {1}), st \in 1..3 : \E of \in 0..(st - 1) :
            c = [A |-> A, st |-> IF ra = 1 THEN st ELSE 1, of |-> IF ra = 1 THEN of ELSE 0]
  [] Kind = "bc" ->
         \E n \in Sizes, salt \in {1, 2, 5}, pat \in {p \in AllPat : {<<0,0>>, <<1,1>>} \subseteq p /\ (<<0,1>> \in p <=> <<1,0>> \in p)} :
           \E S \in SUBSET (0..(2 * n - 1)), sc \in {"0", "1", "-2"}, d \in BOOLEAN :
            c = [A |-> Mk(pat, n, n, salt), b |-> V(2 * n, salt), n |-> n, dofs |-> SetToSeq(S),
                 vals |-> [i \in 1..Cardinality(S) |-> RNum(Num(i, 4))], scale |-> sc, dflt |-> d]
  [] Kind = "condense" ->
         \E n \in Sizes, q \in Sizes, cb \in Sizes, p1 \in FewPat, p2 \in FewPat : \E of \in 0..(n - 1) :
            c = [A |-> Mk(p1, n, cb, 1), B |-> Mk(p2, 1, q, 2), C |-> Full(MAdd(MScale("9", MIdent(2 * q)), Dense(Mk(p2, q, q, 3))), q, q),
                 D |-> Mk(p1, q, cb, 5), off |-> of]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

(* ------------------------------- laws -------------------------------------- *)
Associative == Kind = "products" =>       \* (A B) x = A (B x), whatever the patterns and block shapes
  VEq(MVec(MmmDense(c.A, c.B), c.x), MtvResult(c.A, MtvResult(c.B, c.x, VZero(c.B.rows)), VZero(c.A.rows)))
ProductStorable == Kind = "products" =>
  LET P == Full(MmmDense(c.A, c.B), c.A.rbs, c.B.cbs) IN Stores(P, MmmDense(c.A, c.B), P)
Accumulates == Kind = "products" => VEq(MtvResult(c.A, [i \in 1..c.A.cols |-> "1"], c.y), VAdd(c.y, RowSums(c.A)))
ExpandLossless == Kind = "convert" =>
  /\ WellFormed(c.A)
  /\ NbResult(c.A, 1, 0, Expand(c.A))
  /\ MEq(Dense(Plain(Expand(c.A).rm, Expand(c.A).ci, Expand(c.A).en, c.A.rows, c.A.cols)), Dense(c.A))
ScatterKeepsRows == Kind = "convert" =>
  LET E == NbDense(c.A, c.st, c.of)
  IN /\ Len(E) = c.A.rows * c.st
     /\ \A r \in 1..c.A.rows : VEq(E[(r - 1) * c.st + c.of + 1], Dense(c.A)[r])
\* the constrained system has exactly the solutions of the original one with the prescribed values
Cand == {-1, 0, 2}
BcEquivalent == Kind = "bc" =>
  LET D == Dense(c.A)  S == BcSet(c)  D2 == BcDense(D, S)  b2 == BcRhs(D, c.b, c)  n == Len(c.b)
      free == (0..(n - 1)) \ S
  IN \A f \in [free -> Cand] :
       LET x == [i \in 1..n |-> IF (i - 1) \in S THEN BcVal(c, i - 1) ELSE RNum(f[i - 1])]
           r1 == VSub(MVec(D, x), c.b)   r2 == VSub(MVec(D2, x), b2)
       IN \A i \in 1..n : IF (i - 1) \in S THEN RIsZero(r2[i]) ELSE REq(r1[i], r2[i])
BcSymmetric == Kind = "bc" =>
  LET D == Dense(c.A) IN MEq(D, MTrans(D)) => MEq(BcDense(D, BcSet(c)), MTrans(BcDense(D, BcSet(c))))
BcIdempotent == Kind = "bc" =>
  LET D2 == BcDense(Dense(c.A), BcSet(c)) IN MEq(BcDense(D2, BcSet(c)), D2) /\ VEq(BcRhs(D2, BcRhs(Dense(c.A), c.b, c), c), BcRhs(Dense(c.A), c.b, c))
CondenseIsSchur == Kind = "condense" =>   \* with a diagonal C the condensed matrix is the Schur complement
  LET DC == Dense(c.C)
      diag == [i \in 1..Len(DC) |-> [j \in 1..Len(DC) |-> IF i = j THEN RDiv(1, RowSums(c.C)[i]) ELSE "0"]]
      s == MMul(Dense(c.B), MMul(diag, Dense(c.D)))
      sc == IF c.A.rbs = 1 THEN s ELSE ScatterRows(s, c.A.rbs, c.off)
  IN MClose(CondenseDense(c.A, c.B, c.C, c.D, c.off), MSub(Dense(c.A), sc))

(* ----------------------- replay on the implementation ---------------------- *)
MatOp(name, M) == [op |-> "mat", A |-> name, rows |-> M.rows, cols |-> M.cols, rbs |-> M.rbs, cbs |-> M.cbs,
                   rm |-> M.rm, ci |-> M.ci, en |-> M.en]
VecOp(name, v) == [op |-> "vec", x |-> name, v |-> v]
ShapeOp(name, r, k, rb, cb) == [op |-> "shape", A |-> name, rows |-> r, cols |-> k, rbs |-> rb, cbs |-> cb]
Scenario ==
  CASE Kind = "products" ->
         <<MatOp("A", c.A), MatOp("B", c.B), VecOp("x", c.x), VecOp("y", VZero(c.B.rows)), VecOp("z", c.y),
           ShapeOp("C", c.A.rows, c.B.cols, c.A.rbs, c.B.cbs),
           [op |-> "mmm", A |-> "A", B |-> "B", C |-> "C"], [op |-> "mtv", A |-> "B", x |-> "x", y |-> "y"],
           [op |-> "mtv", A |-> "A", x |-> "y", y |-> "z"]>>
         \o (IF c.A.cbs = c.B.cbs /\ (c.B.rbs = 1)
             THEN <<[op |-> "minus", A |-> "A", B |-> "B", off |-> c.A.rbs - 1]>> ELSE <<>>)
  [] Kind = "convert" ->
         <<MatOp("A", c.A), [op |-> "nonblock", A |-> "A", dflt |-> FALSE, stride |-> c.st, off |-> c.of],
           ShapeOp("B", c.A.rows, c.A.cols, c.A.rbs, c.A.cbs), [op |-> "roundtrip", A |-> "A", B |-> "B"],
           [op |-> "sort", rm |-> Expand(c.A).rm, ci |-> Expand(c.A).ci, en |-> Expand(c.A).en, cols |-> c.A.cols]>>
  [] Kind = "bc" ->
         <<MatOp("A", c.A), VecOp("b", c.b),
           [op |-> "bc", A |-> "A", b |-> "b", n |-> c.n, block |-> (c.n > 1 \/ c.dflt), dofs |-> c.dofs, vals |-> c.vals,
            scale |-> c.scale, dflt |-> c.dflt]>>
  [] Kind = "condense" ->
         <<MatOp("A", c.A), MatOp("B", c.B), MatOp("C", c.C), MatOp("D", c.D),
           [op |-> "condense", A |-> "A", B |-> "B", C |-> "C", D |-> "D", off |-> c.off]>>
Emit == PrintT("SCEN " \o ToJson(Scenario))
=============================================================================
