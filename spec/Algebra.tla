------------------------------ MODULE Algebra -------------------------------
(***************************************************************************)
(* The algebra htool offers on its objects - hierarchical, low-rank and    *)
(* dense matrices, vectors - as a state machine.  The state is a store     *)
(* mapping object names to                                                 *)
(*   [m   : the matrix the object stands for (cluster numbering, mirror    *)
(*          part filled in),                                               *)
(*    lay : its block layout, <<>> for objects without one,                *)
(*    pt, ps : row and column renumbering for objects with a user          *)
(*          numbering, <<>> otherwise,                                     *)
(*    fac : "" or what a factorisation left behind ("LU", "CHL", "CHU")]   *)
(* Each operator below is the effect of one operation on the store; every  *)
(* object it does not name keeps its value (frame condition).              *)
(***************************************************************************)
EXTENDS LinAlg

\* rectangle addressed by a reference [o, r0, nr, c0, nc] (nr = -1: everything)
RefMat(st, r) == IF r.nr < 0 THEN st[r.o].m ELSE SubMat(st[r.o].m, r.r0, r.nr, r.c0, r.nc)
\* replace the addressed rectangle
PutAt(A, B, r) ==
    IF r.nr < 0 THEN B
    ELSE LET in(i, j) == i > r.r0 /\ i <= r.r0 + r.nr /\ j > r.c0 /\ j <= r.c0 + r.nc
             P(i, j) == IF in(i, j) THEN RePart(B, i - r.r0, j - r.c0) ELSE RePart(A, i, j)
             Q(i, j) == IF in(i, j) THEN ImPart(B, i - r.r0, j - r.c0) ELSE ImPart(A, i, j)
         IN IF IsCplx(A) \/ IsCplx(B) THEN MkC(A.m, A.n, P, Q) ELSE MkR(A.m, A.n, P)
Write(st, r, B) == [st EXCEPT ![r.o].m = PutAt(@, B, r)]

OpRows(t, A) == IF t = "N" THEN A.m ELSE A.n
OpCols(t, A) == IF t = "N" THEN A.n ELSE A.m
Conforming(e, A, B, C) == OpCols(e.ta, A) = OpRows(e.tb, B) /\ C.m = OpRows(e.ta, A) /\ C.n = OpCols(e.tb, B)

\* C := alpha op(A) op(B) + beta C
MulEff(st, e) ==
    LET A == RefMat(st, e.A) B == RefMat(st, e.B) C == RefMat(st, e.C) IN
    Write(st, e.C, Axpby(e.alpha, MulMat(Op(e.ta, A), Op(e.tb, B)), e.beta, C))
\* X := alpha X
ScaleEff(st, e) == Write(st, e.X, ScaleMat(e.alpha, RefMat(st, e.X)))
\* X := X + (Y placed at, or restricted to, the rectangle X addresses)
\* e.dr, e.dc: offset of Y relative to X
RestrictTo(Y, m, n, dr, dc) ==
    LET in(i, j) == i > dr /\ i <= dr + Y.m /\ j > dc /\ j <= dc + Y.n
        P(i, j) == IF in(i, j) THEN RePart(Y, i - dr, j - dc) ELSE 0
        Q(i, j) == IF in(i, j) THEN ImPart(Y, i - dr, j - dc) ELSE 0
    IN IF IsCplx(Y) THEN MkC(m, n, P, Q) ELSE MkR(m, n, P)
AddEff(st, e) ==
    LET X == RefMat(st, e.X) Y == RefMat(st, e.Y) IN
    Write(st, e.X, AddMat(X, RestrictTo(Y, X.m, X.n, e.dr, e.dc)))
TransposeEff(st, e) == Write(st, e.Y, Transpose(RefMat(st, e.X)))

\* the triangle of A a triangular solve addresses, transposed as asked
TriOp(e, A) == Op(e.ta, TriD(A, e.uplo, e.diag))
\* X solves the triangular system with right-hand side B
TriSolved(e, A, B, X) ==
    IF e.side = "L" THEN MatEq(MulMat(TriOp(e, A), X), ScaleMat(e.alpha, B))
                    ELSE MatEq(MulMat(X, TriOp(e, A)), ScaleMat(e.alpha, B))
Solved(t, A, B, X) == MatEq(MulMat(Op(t, A), X), B)
=============================================================================
