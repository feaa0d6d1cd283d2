------------------------------- MODULE HTree --------------------------------
(***************************************************************************)
(* The recursive algorithms on block trees.  A cluster tree is a sequence  *)
(* of nodes [o, s, kids]; a block tree maps pairs of nodes to "split",     *)
(* "d" (dense leaf) or "r" (compressed leaf).  A matrix is a function on   *)
(* index pairs; the algorithms change it one block at a time and may only  *)
(* look at blocks that exist: otherwise the result is Broken.              *)
(* Leaf-level operations are taken by their definition.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
Broken == [broken |-> TRUE]
IsBroken(M) == DOMAIN M = {"broken"}
Rng(T, t) == (T[t].o + 1)..(T[t].o + T[t].s)
Kids(T, t) == IF T[t].kids = <<>> THEN <<t>> ELSE T[t].kids
N(T) == T[1].s
Mat(T, F(_, _)) == TLCEval([p \in (1..N(T)) \X (1..N(T)) |-> F(p[1], p[2])])
RECURSIVE Sum(_, _)
Sum(F(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN F(x) + Sum(F, S \ {x})
Dot(A, B, i, j, K) == Sum(LAMBDA k : A[<<i, k>>] * B[<<k, j>>], K)
Tr(A) == TLCEval([p \in DOMAIN A |-> A[<<p[2], p[1]>>]])
Times(T, A, B) == Mat(T, LAMBDA i, j : Dot(A, B, i, j, 1..N(T)))
\* M with alpha * A * B, restricted to rows t, middle m, columns s, added
AddProd(T, M, alpha, A, B, t, m, s) ==
    TLCEval([p \in DOMAIN M |-> IF p[1] \in Rng(T, t) /\ p[2] \in Rng(T, s) THEN M[p] + alpha * Dot(A, B, p[1], p[2], Rng(T, m)) ELSE M[p]])

\* children of a block: every pair of children, a cluster without any standing for itself
Present(bt, x, y) == <<x, y>> \in DOMAIN bt
At(bt, trans, x, y) == IF trans THEN <<y, x>> ELSE <<x, y>>

\* C(t,s) += alpha op(A)(t,m) op(B)(m,s); A and B are given as the matrices after op, their block trees before it
RECURSIVE HMul(_, _, _, _, _, _, _, _, _, _, _, _, _)
HMul(T, C, bc, alpha, A, ba, ta, B, bb, tb, t, m, s) ==
    IF IsBroken(C) THEN C
    ELSE IF ~Present(bc, t, s) THEN C \* the other triangle of C: not stored
    ELSE IF At(ba, ta, t, m) \notin DOMAIN ba \/ At(bb, tb, m, s) \notin DOMAIN bb THEN Broken
    ELSE IF bc[<<t, s>>] = "split" /\ ba[At(ba, ta, t, m)] = "split" /\ bb[At(bb, tb, m, s)] = "split"
         THEN FoldLeft(LAMBDA acc1, x : FoldLeft(LAMBDA acc2, y : FoldLeft(LAMBDA acc3, z :
                       HMul(T, acc3, bc, alpha, A, ba, ta, B, bb, tb, x, z, y), acc2, Kids(T, m)), acc1, Kids(T, s)), C, Kids(T, t))
         ELSE AddProd(T, C, alpha, A, B, t, m, s)

\* Solves with a triangle of the diagonal block p, by definition.  Diagonals are +-1.
Diag(A, d, i) == IF d = "U" THEN 1 ELSE A[<<i, i>>]
RECURSIVE Fwd(_, _, _, _, _)
\* columns cs of X: rows in the order given, each depending on the ones before it; A is op(A)
Fwd(A, d, X, rows, cs) ==
    IF rows = <<>> THEN X
    ELSE LET i == Head(rows)
             X2 == TLCEval([p \in DOMAIN X |-> IF p[1] = i /\ p[2] \in cs THEN X[p] * Diag(A, d, i) ELSE X[p]])
             later == {rows[k] : k \in 2..Len(rows)}
             X3 == TLCEval([p \in DOMAIN X2 |-> IF p[1] \in later /\ p[2] \in cs THEN X2[p] - A[<<p[1], i>>] * X2[<<i, p[2]>>] ELSE X2[p]])
         IN Fwd(A, d, X3, Tail(rows), cs)
Asc(T, p) == [k \in 1..T[p].s |-> T[p].o + k]
Desc(T, p) == [k \in 1..T[p].s |-> T[p].o + T[p].s + 1 - k]
\* op(A) X = B, op(A) lower or upper
LeafLeft(T, M, A, low, d, p, s) == Fwd(A, d, M, IF low THEN Asc(T, p) ELSE Desc(T, p), Rng(T, s))
LeafRight(T, M, A, low, d, t, p) == Tr(Fwd(Tr(A), d, Tr(M), IF low THEN Desc(T, p) ELSE Asc(T, p), Rng(T, t)))

\* B(p,s) := op(A(p,p))^-1 B(p,s) with op(A) lower (low) or upper; tr: op transposes, so blocks are looked up mirrored
RECURSIVE SolveLeft(_, _, _, _, _, _, _, _, _, _)
SolveLeft(T, M, bb, A, ba, tr, low, d, p, s) ==
    IF IsBroken(M) THEN M
    ELSE IF ~Present(ba, p, p) \/ ~Present(bb, p, s) THEN Broken
    ELSE IF ba[<<p, p>>] = "split" /\ bb[<<p, s>>] = "split"
         THEN LET rows == IF low THEN Kids(T, p) ELSE Reverse(Kids(T, p)) IN
              FoldLeft(LAMBDA acc1, k : FoldLeft(LAMBDA acc2, y :
                  LET x == rows[k]
                      upd == FoldLeft(LAMBDA acc3, l : HMul(T, acc3, bb, -1, A, ba, tr, acc3, bb, FALSE, x, rows[l], y), acc2, [l \in 1..(k - 1) |-> l])
                  IN SolveLeft(T, upd, bb, A, ba, tr, low, d, x, y), acc1, Kids(T, s)), M, [k \in 1..Len(rows) |-> k])
         ELSE LeafLeft(T, M, A, low, d, p, s)
\* B(t,p) := B(t,p) op(A(p,p))^-1
RECURSIVE SolveRight(_, _, _, _, _, _, _, _, _, _)
SolveRight(T, M, bb, A, ba, tr, low, d, t, p) ==
    IF IsBroken(M) THEN M
    ELSE IF ~Present(ba, p, p) \/ ~Present(bb, t, p) THEN Broken
    ELSE IF ba[<<p, p>>] = "split" /\ bb[<<t, p>>] = "split"
         THEN LET cols == IF low THEN Reverse(Kids(T, p)) ELSE Kids(T, p) IN
              FoldLeft(LAMBDA acc1, k : FoldLeft(LAMBDA acc2, x :
                  LET y == cols[k]
                      upd == FoldLeft(LAMBDA acc3, l : HMul(T, acc3, bb, -1, acc3, bb, FALSE, A, ba, tr, x, cols[l], y), acc2, [l \in 1..(k - 1) |-> l])
                  IN SolveRight(T, upd, bb, A, ba, tr, low, d, x, y), acc1, Kids(T, t)), M, [k \in 1..Len(cols) |-> k])
         ELSE LeafRight(T, M, A, low, d, t, p)

\* LU without pivoting, in place
RECURSIVE LeafLU(_, _, _)
LeafLU(M, lo, hi) ==
    IF lo >= hi THEN M
    ELSE LET A == TLCEval([p \in DOMAIN M |-> IF p[2] = lo /\ p[1] > lo /\ p[1] <= hi THEN M[p] * M[<<lo, lo>>] ELSE M[p]])
             B == TLCEval([p \in DOMAIN A |-> IF p[1] > lo /\ p[1] <= hi /\ p[2] > lo /\ p[2] <= hi THEN A[p] - A[<<p[1], lo>>] * A[<<lo, p[2]>>] ELSE A[p]])
         IN LeafLU(B, lo + 1, hi)
RECURSIVE LU(_, _, _, _)
LU(T, M, bt, p) ==
    IF IsBroken(M) \/ ~Present(bt, p, p) THEN Broken
    ELSE IF bt[<<p, p>>] # "split" THEN LeafLU(M, T[p].o + 1, T[p].o + T[p].s)
    ELSE LET K == Kids(T, p) IN
         FoldLeft(LAMBDA acc, k :
             LET x == K[k] later == [l \in 1..(Len(K) - k) |-> K[k + l]]
                 m1 == LU(T, acc, bt, x)
                 m2 == FoldLeft(LAMBDA a, y : LET u == SolveLeft(T, a, bt, a, bt, FALSE, TRUE, "U", x, y)
                                              IN SolveRight(T, u, bt, u, bt, FALSE, FALSE, "N", y, x), m1, later)
             IN FoldLeft(LAMBDA a, y : FoldLeft(LAMBDA b, z : IF IsBroken(b) THEN b ELSE HMul(T, b, bt, -1, b, bt, FALSE, b, bt, FALSE, y, x, z), a, later), m2, later),
             M, [k \in 1..Len(K) |-> k])

\* Cholesky of the stored triangle, in place; unit diagonals.  up: upper triangle stored
RECURSIVE LeafChol(_, _, _, _)
LeafChol(M, up, lo, hi) ==
    IF lo >= hi THEN M
    ELSE LeafChol(TLCEval([p \in DOMAIN M |-> LET i == IF up THEN p[2] ELSE p[1] j == IF up THEN p[1] ELSE p[2]
                                                  c(x) == IF up THEN M[<<lo, x>>] ELSE M[<<x, lo>>] IN
                           IF i > lo /\ i <= hi /\ j > lo /\ j <= i THEN M[p] - c(i) * c(j) ELSE M[p]]), up, lo + 1, hi)
RECURSIVE Chol(_, _, _, _, _)
Chol(T, M, bt, up, p) ==
    IF IsBroken(M) \/ ~Present(bt, p, p) THEN Broken
    ELSE IF bt[<<p, p>>] # "split" THEN LeafChol(M, up, T[p].o + 1, T[p].o + T[p].s)
    ELSE LET K == Kids(T, p) IN
         FoldLeft(LAMBDA acc, k :
             LET x == K[k] later == [l \in 1..(Len(K) - k) |-> K[k + l]]
                 m1 == Chol(T, acc, bt, up, x)
                 m2 == FoldLeft(LAMBDA a, y : IF IsBroken(a) THEN a
                                              ELSE IF up THEN SolveLeft(T, a, bt, Tr(a), bt, TRUE, TRUE, "N", x, y)
                                              ELSE SolveRight(T, a, bt, Tr(a), bt, TRUE, FALSE, "N", y, x), m1, later)
             IN FoldLeft(LAMBDA a, y : FoldLeft(LAMBDA b, z :
                    IF IsBroken(b) \/ T[y].o < T[z].o THEN b
                    ELSE IF up THEN HMul(T, b, bt, -1, Tr(b), bt, TRUE, b, bt, FALSE, z, x, y)
                    ELSE HMul(T, b, bt, -1, b, bt, FALSE, Tr(b), bt, TRUE, y, x, z), a, later), m2, later),
             M, [k \in 1..Len(K) |-> k])

\* product with a vector (a function on indices): every leaf once, and once more mirrored when only a triangle is stored
Leaves(bt) == {b \in DOMAIN bt : bt[b] # "split"}
MV(T, M, bt, mirrored, x) ==
    [i \in 1..N(T) |->
        Sum(LAMBDA b : IF i \in Rng(T, b[1]) THEN Sum(LAMBDA k : M[<<i, k>>] * x[k], Rng(T, b[2])) ELSE 0, Leaves(bt))
        + (IF ~mirrored THEN 0
           ELSE Sum(LAMBDA b : IF i \in Rng(T, b[2]) THEN Sum(LAMBDA k : M[<<k, i>>] * x[k], Rng(T, b[1])) ELSE 0, {b \in Leaves(bt) : b[1] # b[2]}))]
=============================================================================
