------------------------------- MODULE Sparse -------------------------------
(* Compressed block-row matrices and the operations the solvers build on.     *)
(* Abstract state: named matrix and vector registers.  A matrix register is   *)
(* the record a client can read back: shape, block shape, row map, (block)    *)
(* column indices, entries.  Its meaning is the dense matrix Dense(M).        *)
(* Every operation is one transition  s --e--> s'; Judge decides whether the  *)
(* recorded outcome of e in s is one the specification allows.                *)
EXTENDS Vec, FiniteSets, SequencesExt, TLC

Blk(M)      == M.rbs * M.cbs
NodeRows(M) == M.rows \div M.rbs
NodeCols(M) == M.cols \div M.cbs

\* positions (1-based) of the stored blocks of node row br (0-based)
RowKs(M, br) == IF M.rm = <<>> THEN {} ELSE (M.rm[br + 1] + 1) .. M.rm[br + 2]
EntryAt(M, k, lr, lc) == M.en[(k - 1) * Blk(M) + lr * M.cbs + lc + 1]

\* the value of the matrix at (r, c), 0-based
Elem(M, r, c) ==
  LET br == r \div M.rbs   lr == r % M.rbs
      bc == c \div M.cbs   lc == c % M.cbs
      ks == {k \in RowKs(M, br) : M.ci[k] = bc}
  IN IF ks = {} THEN "0"
     ELSE LET q == SetToSeq(ks) IN RSum([i \in 1..Len(q) |-> EntryAt(M, q[i], lr, lc)])
Dense(M) == [r \in 1..M.rows |-> [c \in 1..M.cols |-> Elem(M, r - 1, c - 1)]]

\* row r (0-based) as stored: values and the columns (0-based) they belong to
RowLen(M, r) == IF M.rm = <<>> THEN 0 ELSE Cardinality(RowKs(M, r \div M.rbs)) * M.cbs
RowPos(M, r, j) == M.rm[(r \div M.rbs) + 1] + 1 + ((j - 1) \div M.cbs)
RowVal(M, r, j) == EntryAt(M, RowPos(M, r, j), r % M.rbs, (j - 1) % M.cbs)
RowCol(M, r, j) == M.ci[RowPos(M, r, j)] * M.cbs + ((j - 1) % M.cbs)
RowDot(M, r, x) == RDot([j \in 1..RowLen(M, r) |-> RowVal(M, r, j)],
                        [j \in 1..RowLen(M, r) |-> x[RowCol(M, r, j) + 1]])
RowTotal(M, r)  == RSum([j \in 1..RowLen(M, r) |-> RowVal(M, r, j)])
RowSums(M)      == [r \in 1..M.rows |-> RowTotal(M, r - 1)]

\* the register holds a well-formed compressed matrix with ascending columns
WellFormed(M) ==
  /\ Len(M.rm) = NodeRows(M) + 1 /\ M.rm[1] = 0
  /\ \A i \in 1..(Len(M.rm) - 1) : M.rm[i] <= M.rm[i + 1]
  /\ M.rm[Len(M.rm)] = Len(M.ci) /\ Len(M.en) = Len(M.ci) * Blk(M)
  /\ \A k \in 1..Len(M.ci) : M.ci[k] >= 0 /\ M.ci[k] < NodeCols(M)
Ascending(M) == \A br \in 0..(NodeRows(M) - 1) : \A k \in RowKs(M, br) : k + 1 \in RowKs(M, br) => M.ci[k] < M.ci[k + 1]

SameShape(M, N) == M.rows = N.rows /\ M.cols = N.cols /\ M.rbs = N.rbs /\ M.cbs = N.cbs
SameMat(M, N)   == SameShape(M, N) /\ M.rm = N.rm /\ M.ci = N.ci /\ VEq(M.en, N.en)
\* M stores the dense matrix D in the shape of N
Stores(M, D, N) == SameShape(M, N) /\ WellFormed(M) /\ Ascending(M) /\ MClose(Dense(M), D)

(* ------------------------------ meaning of the operations ----------------- *)
MtvShapeOK(A, x, y)  == A.cols = Len(x) /\ A.rows = Len(y)
MtvResult(A, x, y)   == [r \in 1..A.rows |-> RAdd(y[r], RowDot(A, r - 1, x))]
MmmShapeOK(A, B, C)  == B.rows = A.cols /\ C.rows = A.rows /\ C.cols = B.cols
MmmDense(A, B)       == MMul(Dense(A), Dense(B))
\* a matrix with one row per node, put at row `off` of every node's block of `stride` rows
ScatterRows(D, stride, off) ==
  [r \in 1..(Len(D) * stride) |-> IF (r - 1) % stride = off THEN D[((r - 1) \div stride) + 1]
                                  ELSE [c \in 1..MNCols(D) |-> "0"]]
MinusDense(A, B, off) == LET s == IF A.rbs = 1 THEN Dense(B) ELSE ScatterRows(Dense(B), A.rbs, off) IN MSub(Dense(A), s)
RowDivided(B, d)      == LET D == Dense(B) IN [r \in 1..B.rows |-> [c \in 1..B.cols |-> RDiv(D[r][c], d[r])]]
CondenseD(C, D)       == RowDivided(D, RowSums(C))
CondenseDense(A, B, C, D, off) ==
  LET p == MMul(Dense(B), CondenseD(C, D))
      s == IF A.rbs = 1 THEN p ELSE ScatterRows(p, A.rbs, off)
  IN MSub(Dense(A), s)

\* imposition of x[d] = scale*val on A x = b (d 0-based dofs), keeping the system symmetric
BcSet(e)        == {e.dofs[i] : i \in 1..Len(e.dofs)}
BcVal(e, d)     == LET i == CHOOSE i \in 1..Len(e.dofs) : e.dofs[i] = d
                   IN IF e.dflt THEN RNum(e.vals[i]) ELSE RMul(e.scale, e.vals[i])
BcDense(D, S)   == [r \in 1..Len(D) |-> [c \in 1..MNCols(D) |->
                      IF (r - 1) \in S \/ (c - 1) \in S THEN (IF r = c THEN "1" ELSE "0") ELSE D[r][c]]]
BcRhs(D, b, e)  == LET S == BcSet(e)  q == SetToSeq(S)
                       v == [k \in 1..Len(q) |-> BcVal(e, q[k])]
                   IN [r \in 1..Len(b) |-> IF (r - 1) \in S THEN BcVal(e, r - 1)
                        ELSE RSub(b[r], RDot([k \in 1..Len(q) |-> D[r][q[k] + 1]], v))]

\* plain compressed rows (rm, ci, en), rows x cols, block size one
Plain(rm, ci, en, rows, cols) == [rows |-> rows, cols |-> cols, rbs |-> 1, cbs |-> 1, rm |-> rm, ci |-> ci, en |-> en]
RowBag(P, r) == {<<P.ci[k], RNum(P.en[k])>> : k \in RowKs(P, r)}
SortResult(P, o) ==       \* o: same rows, columns ascending, same (column, value) pairs
  LET Q == Plain(o.rm, o.ci, o.en, P.rows, P.cols)
  IN /\ o.rm = P.rm /\ Len(o.ci) = Len(P.ci) /\ Len(o.en) = Len(P.en)
     /\ \A r \in 0..(P.rows - 1) :
          /\ RowBag(Q, r) = RowBag(P, r)
          /\ \A k \in RowKs(Q, r) : k + 1 \in RowKs(Q, r) => Q.ci[k] <= Q.ci[k + 1]
\* expansion of M to plain rows; with stride > 1, M (one row per node) becomes row `off` of the full matrix
NbDense(M, stride, off) == IF stride = 1 THEN Dense(M) ELSE ScatterRows(Dense(M), stride, off)
\* number of plain entries a row of the expansion must show: the stored pattern is kept, zeros included
NbResult(M, stride, off, o) ==
  LET P == Plain(o.rm, o.ci, o.en, M.rows * stride, M.cols)
      rbs == IF stride = 1 THEN M.rbs ELSE stride
  IN /\ Len(o.rm) = M.rows * stride + 1
     /\ WellFormed(P)
     /\ Len(o.ci) = Len(M.ci) * rbs * M.cbs
     /\ \A r \in 0..(P.rows - 1) : Cardinality({P.ci[k] : k \in RowKs(P, r)}) = RowLen(M, IF stride = 1 THEN r ELSE r \div stride)
     /\ MEq(Dense(P), NbDense(M, stride, off))

(* ------------------------------ transitions -------------------------------- *)
Upd(f, k, x) == (k :> x) @@ f
FrameM(s, o, changed) == DOMAIN o.m = DOMAIN s.m \union changed /\ \A k \in DOMAIN s.m \ changed : SameMat(o.m[k], s.m[k])
FrameV(s, o, changed) == DOMAIN o.v = DOMAIN s.v \union changed /\ \A k \in DOMAIN s.v \ changed : VEq(o.v[k], s.v[k])
Frame(s, o, cm, cv)   == FrameM(s, o, cm) /\ FrameV(s, o, cv)

Ok(s, e)       == [v |-> "ok", why |-> "", st |-> [m |-> e.out.m, v |-> e.out.v]]
Bad(s, w)      == [v |-> "bad", why |-> w, st |-> s]
If(c, s, e, w) == IF c THEN Ok(s, e) ELSE Bad(s, w)

Judge1(s, e) ==
  LET o == e.out IN
  CASE e.op = "mat" -> If(~e.exc /\ Frame(s, o, {e.A}, {}) /\ SameMat(o.m[e.A], e), s, e, "the constructed matrix differs from its data")
  [] e.op = "shape" -> If(~e.exc /\ Frame(s, o, {e.A}, {}) /\ SameShape(o.m[e.A], e), s, e, "the constructed matrix has another shape")
  [] e.op = "vec" -> If(~e.exc /\ Frame(s, o, {}, {e.x}) /\ VEq(o.v[e.x], e.v), s, e, "construction failed")
  [] e.op = "mtv" ->
       LET A == s.m[e.A]  x == s.v[e.x]  y == s.v[e.y] IN
       IF ~MtvShapeOK(A, x, y) THEN If(e.exc /\ Frame(s, o, {}, {}), s, e, "mismatched dimensions must be rejected without effect")
       ELSE If(~e.exc /\ Frame(s, o, {}, {e.y}) /\ VClose(o.v[e.y], MtvResult(A, x, y)), s, e, "y + A x is wrong, or an input changed")
  [] e.op = "mmm" ->
       LET A == s.m[e.A]  B == s.m[e.B]  C == s.m[e.C] IN
       IF ~MmmShapeOK(A, B, C) THEN If(e.exc /\ Frame(s, o, {}, {}), s, e, "mismatched dimensions must be rejected without effect")
       ELSE If(~e.exc /\ Frame(s, o, {e.C}, {}) /\ Stores(o.m[e.C], MmmDense(A, B), C), s, e, "A B is wrong, or an input changed")
  [] e.op = "minus" ->
       LET A == s.m[e.A]  B == s.m[e.B] IN
       IF A.cols # B.cols THEN If(e.exc /\ Frame(s, o, {}, {}), s, e, "mismatched dimensions must be rejected without effect")
       ELSE If(~e.exc /\ Frame(s, o, {e.A}, {}) /\ Stores(o.m[e.A], MinusDense(A, B, e.off), A), s, e, "A - B is wrong, or an input changed")
  [] e.op = "nonblock" ->
       LET A == s.m[e.A] IN
       If(~e.exc /\ Frame(s, o, {}, {}) /\ NbResult(A, IF e.dflt THEN 1 ELSE e.stride, IF e.dflt THEN 0 ELSE e.off, o), s, e,
          "the expanded matrix differs from the block matrix")
  [] e.op = "setnb" ->
       LET A == s.m[e.A]  P == Plain(e.rm, e.ci, e.en, A.rows, A.cols) IN
       If(~e.exc /\ Frame(s, o, {e.A}, {}) /\ Stores(o.m[e.A], Dense(P), A) /\ o.rm = e.rm
             /\ Len(o.m[e.A].en) = Len(e.en), s, e,
          "the block matrix differs from the non-block data")
  [] e.op = "roundtrip" ->
       LET A == s.m[e.A]  B == s.m[e.B] IN
       If(~e.exc /\ Frame(s, o, {e.B}, {}) /\ Stores(o.m[e.B], Dense(A), A) /\ o.m[e.B].rm = A.rm, s, e,
          "block -> non-block -> block changes the matrix")
  [] e.op = "sort" ->
       If(~e.exc /\ Frame(s, o, {}, {}) /\ SortResult(Plain(e.rm, e.ci, e.en, Len(e.rm) - 1, e.cols), o), s, e,
          "sorting does not give the same rows in ascending column order")
  [] e.op = "rowsum" ->
       If(~e.exc /\ Frame(s, o, {}, {e.r}) /\ VClose(o.v[e.r], RowSums(s.m[e.A])), s, e, "row sums are wrong")
  [] e.op = "rsim" ->
       LET A == s.m[e.A]  B == s.m[e.B] IN
       If(~e.exc /\ Frame(s, o, {e.B}, {}) /\ SameShape(o.m[e.B], B) /\ o.m[e.B].rm = B.rm /\ o.m[e.B].ci = B.ci
             /\ MClose(Dense(o.m[e.B]), RowDivided(B, RowSums(A))), s, e, "RowSum(A)^-1 B is wrong")
  [] e.op = "diaginv" ->
       LET A == s.m[e.A] IN
       If(~e.exc /\ Frame(s, o, {e.A}, {}) /\ SameShape(o.m[e.A], A) /\ o.m[e.A].rm = A.rm /\ o.m[e.A].ci = A.ci
             /\ MClose(Dense(o.m[e.A]), RowDivided(A, s.v[e.r])), s, e, "diag(r)^-1 A is wrong")
  [] e.op = "condense" ->
       LET A == s.m[e.A]  B == s.m[e.B]  C == s.m[e.C]  D == s.m[e.D] IN
       If(~e.exc /\ Frame(s, o, {e.A, e.D}, {}) /\ Stores(o.m[e.A], CondenseDense(A, B, C, D, e.off), A)
             /\ MClose(Dense(o.m[e.D]), CondenseD(C, D)), s, e, "A - B RowSum(C)^-1 D is wrong")
  [] e.op = "rowsummed" ->
       LET A == s.m[e.A]  r == RowSums(A)  b == s.v[e.b] IN
       If(~e.exc /\ Frame(s, o, {}, {e.x}) /\ VClose(o.v[e.x], [i \in 1..Len(b) |-> RDiv(b[i], r[i])]), s, e,
          "RowSum(A)^-1 b is wrong")
  [] e.op = "invw" ->
       LET r == s.v[e.r]  b == s.v[e.b]  k == IF e.dflt THEN "1" ELSE e.scale IN
       If(~e.exc /\ Frame(s, o, {}, {e.x}) /\ VClose(o.v[e.x], [i \in 1..Len(b) |-> RMul(k, RDiv(b[i], r[i]))]), s, e,
          "the weighted inverse is wrong")
  [] e.op = "bc" ->
       LET A == s.m[e.A]  D == Dense(A)  b == s.v[e.b] IN
       If(~e.exc /\ Frame(s, o, {e.A}, {e.b}) /\ SameShape(o.m[e.A], A) /\ o.m[e.A].rm = A.rm /\ o.m[e.A].ci = A.ci
             /\ MEq(Dense(o.m[e.A]), BcDense(D, BcSet(e))) /\ VClose(o.v[e.b], BcRhs(D, b, e)), s, e,
          "the constrained system differs from the essential boundary conditions imposed on it")
  [] OTHER -> Bad(s, "unknown operation")

Init0 == [m |-> <<>>, v |-> <<>>]
=============================================================================
