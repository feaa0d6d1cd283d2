------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Exact linear algebra over Z and over the Gaussian integers Z[i].        *)
(* A matrix is a record [m, n, d, e]: m rows, n columns, d the sequence of *)
(* real parts by columns, e the sequence of imaginary parts (<<>> for a    *)
(* matrix over Z).  Scalars are pairs <<re, im>>.                          *)
(* These are the reference semantics every conformance check compares to. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

BAD == 99999999         \* logged by a driver for a value that is not (close to) an integer
Limit == 40000          \* entries of operands beyond this are rejected before computing with them

Abs(x) == IF x < 0 THEN -x ELSE x

IsCplx(A) == Len(A.e) > 0
RePart(A, i, j) == A.d[(j - 1) * A.m + i]
ImPart(A, i, j) == IF IsCplx(A) THEN A.e[(j - 1) * A.m + i] ELSE 0

RowOf(k, m) == ((k - 1) % m) + 1
ColOf(k, m) == ((k - 1) \div m) + 1

\* matrix from index functions
MkR(m, n, F(_, _)) == [m |-> m, n |-> n, d |-> TLCEval([k \in 1..(m * n) |-> F(RowOf(k, m), ColOf(k, m))]), e |-> <<>>]
MkC(m, n, F(_, _), G(_, _)) ==
    [m |-> m, n |-> n,
     d |-> TLCEval([k \in 1..(m * n) |-> F(RowOf(k, m), ColOf(k, m))]),
     e |-> TLCEval([k \in 1..(m * n) |-> G(RowOf(k, m), ColOf(k, m))])]

\* re-index A: entry (i,j) of the result is A[r(i,j)]
Reindex(A, m, n, R(_, _), C(_, _)) ==
    LET P(i, j) == A.d[(C(i, j) - 1) * A.m + R(i, j)]
        Q(i, j) == A.e[(C(i, j) - 1) * A.m + R(i, j)]
    IN IF IsCplx(A) THEN MkC(m, n, P, Q) ELSE MkR(m, n, P)

ZeroMat(m, n) == MkR(m, n, LAMBDA i, j : 0)
IdMat(n) == MkR(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)

WellFormed(A) == /\ A.m >= 0 /\ A.n >= 0
                 /\ Len(A.d) = A.m * A.n
                 /\ (Len(A.e) = 0 \/ Len(A.e) = A.m * A.n)
InRange(A) == /\ \A k \in 1..Len(A.d) : Abs(A.d[k]) <= Limit
              /\ \A k \in 1..Len(A.e) : Abs(A.e[k]) <= Limit
Shape(A, m, n) == WellFormed(A) /\ A.m = m /\ A.n = n

Zeros(k) == [x \in 1..k |-> 0]
ImSeq(A) == IF IsCplx(A) THEN A.e ELSE Zeros(Len(A.d))

\* equality as matrices (a missing imaginary part is zero)
MatEq(A, B) == /\ A.m = B.m /\ A.n = B.n /\ Len(A.d) = Len(B.d)
               /\ \A k \in 1..Len(A.d) : A.d[k] = B.d[k]
               /\ IF IsCplx(A) /\ IsCplx(B) THEN \A k \in 1..Len(A.e) : A.e[k] = B.e[k]
                  ELSE IF IsCplx(A) THEN \A k \in 1..Len(A.e) : A.e[k] = 0
                  ELSE IF IsCplx(B) THEN \A k \in 1..Len(B.e) : B.e[k] = 0 ELSE TRUE

Transpose(A) == Reindex(A, A.n, A.m, LAMBDA i, j : j, LAMBDA i, j : i)
Conj(A) == IF IsCplx(A) THEN [A EXCEPT !.e = TLCEval([k \in 1..Len(A.e) |-> -A.e[k]])] ELSE A
Op(t, A) == CASE t = "N" -> A [] t = "T" -> Transpose(A) [] t = "C" -> Conj(Transpose(A))

One == <<1, 0>>
Zero == <<0, 0>>

ScaleMat(a, A) ==
    IF a = One THEN A
    ELSE IF a[2] = 0 /\ ~IsCplx(A)
         THEN [A EXCEPT !.d = TLCEval([k \in 1..Len(A.d) |-> a[1] * A.d[k]])]
         ELSE LET ai == ImSeq(A) IN
              [m |-> A.m, n |-> A.n,
               d |-> TLCEval([k \in 1..Len(A.d) |-> a[1] * A.d[k] - a[2] * ai[k]]),
               e |-> TLCEval([k \in 1..Len(A.d) |-> a[1] * ai[k] + a[2] * A.d[k]])]

AddMat(A, B) ==
    IF ~IsCplx(A) /\ ~IsCplx(B)
    THEN [A EXCEPT !.d = TLCEval([k \in 1..Len(A.d) |-> A.d[k] + B.d[k]])]
    ELSE LET ai == ImSeq(A) bi == ImSeq(B) IN
         [m |-> A.m, n |-> A.n,
          d |-> TLCEval([k \in 1..Len(A.d) |-> A.d[k] + B.d[k]]),
          e |-> TLCEval([k \in 1..Len(A.d) |-> ai[k] + bi[k]])]

\* real product of column-major sequences a (m x p) and b (p x n)
SeqMul(a, b, m, p, n) ==
    LET idx == [t \in 1..p |-> t] IN
    TLCEval([k \in 1..(m * n) |->
        LET i == RowOf(k, m)
            o == (ColOf(k, m) - 1) * p
        IN FoldLeft(LAMBDA acc, t : acc + a[(t - 1) * m + i] * b[o + t], 0, idx)])

SeqAdd(a, b) == TLCEval([k \in 1..Len(a) |-> a[k] + b[k]])
SeqSub(a, b) == TLCEval([k \in 1..Len(a) |-> a[k] - b[k]])

MulMat(A, B) ==
    LET M(a, b) == SeqMul(a, b, A.m, A.n, B.n) IN
    IF ~IsCplx(A) /\ ~IsCplx(B)
    THEN [m |-> A.m, n |-> B.n, d |-> M(A.d, B.d), e |-> <<>>]
    ELSE LET ai == ImSeq(A) bi == ImSeq(B) IN
         [m |-> A.m, n |-> B.n,
          d |-> SeqSub(M(A.d, B.d), M(ai, bi)),
          e |-> SeqAdd(M(A.d, bi), M(ai, B.d))]

\* alpha * X + beta * Y, where Y is not even looked at when beta = 0
Axpby(alpha, X, beta, Y) ==
    IF beta = Zero THEN ScaleMat(alpha, X)
    ELSE AddMat(ScaleMat(alpha, X), ScaleMat(beta, Y))

\* sub-matrix: r0, c0 are 0-based offsets
SubMat(A, r0, nr, c0, nc) == Reindex(A, nr, nc, LAMBDA i, j : r0 + i, LAMBDA i, j : c0 + j)
Inside(A, r0, nr, c0, nc) == r0 >= 0 /\ c0 >= 0 /\ nr >= 0 /\ nc >= 0 /\ r0 + nr <= A.m /\ c0 + nc <= A.n

\* A with B added at offset (r0,c0)
AddAt(A, B, r0, c0) ==
    LET isin(i, j) == i > r0 /\ i <= r0 + B.m /\ j > c0 /\ j <= c0 + B.n
        P(i, j) == RePart(A, i, j) + (IF isin(i, j) THEN RePart(B, i - r0, j - c0) ELSE 0)
        Q(i, j) == ImPart(A, i, j) + (IF isin(i, j) THEN ImPart(B, i - r0, j - c0) ELSE 0)
    IN IF IsCplx(A) \/ IsCplx(B) THEN MkC(A.m, A.n, P, Q) ELSE MkR(A.m, A.n, P)

\* rows/columns gathered through 0-based permutations: result(i,j) = A(p[i], q[j])
Gather(A, p, q) == Reindex(A, Len(p), Len(q), LAMBDA i, j : p[i] + 1, LAMBDA i, j : q[j] + 1)
GatherRows(A, p) == Reindex(A, Len(p), A.n, LAMBDA i, j : p[i] + 1, LAMBDA i, j : j)
\* result(p[i], j) = A(i, j)
InvPerm(p) == TLCEval([v \in 1..Len(p) |-> (CHOOSE i \in 1..Len(p) : p[i] = v - 1) - 1])
ScatterRows(A, p) == GatherRows(A, InvPerm(p))

\* keep one triangle (uplo "L" or "U"), diagonal included; the rest zero
Tri(A, uplo) ==
    LET keep(i, j) == IF uplo = "L" THEN i >= j ELSE i <= j
        P(i, j) == IF keep(i, j) THEN RePart(A, i, j) ELSE 0
        Q(i, j) == IF keep(i, j) THEN ImPart(A, i, j) ELSE 0
    IN IF IsCplx(A) THEN MkC(A.m, A.n, P, Q) ELSE MkR(A.m, A.n, P)
\* triangle with unit diagonal if diag = "U"
TriD(A, uplo, diag) ==
    LET keep(i, j) == IF uplo = "L" THEN i >= j ELSE i <= j
        P(i, j) == IF i = j /\ diag = "U" THEN 1 ELSE IF keep(i, j) THEN RePart(A, i, j) ELSE 0
        Q(i, j) == IF i = j /\ diag = "U" THEN 0 ELSE IF keep(i, j) THEN ImPart(A, i, j) ELSE 0
    IN IF IsCplx(A) THEN MkC(A.m, A.n, P, Q) ELSE MkR(A.m, A.n, P)

\* full matrix denoted by one stored triangle of a symmetric (S) / Hermitian (H) matrix
FullFromTri(A, sym, uplo) ==
    LET stored(i, j) == IF uplo = "L" THEN i >= j ELSE i <= j
        P(i, j) == IF stored(i, j) THEN RePart(A, i, j) ELSE RePart(A, j, i)
        Q(i, j) == IF stored(i, j) THEN (IF sym = "H" /\ i = j THEN 0 ELSE ImPart(A, i, j))
                   ELSE IF sym = "H" THEN -ImPart(A, j, i) ELSE ImPart(A, j, i)
    IN IF sym = "N" THEN A ELSE IF IsCplx(A) THEN MkC(A.m, A.n, P, Q) ELSE MkR(A.m, A.n, P)

\* Frobenius-type bound on plain integers
MaxAbs(A) == LET S == {Abs(A.d[k]) : k \in 1..Len(A.d)} \cup {Abs(A.e[k]) : k \in 1..Len(A.e)} \cup {0}
             IN CHOOSE x \in S : \A y \in S : y <= x

IsPerm(p) == /\ \A i \in 1..Len(p) : p[i] \in 0..(Len(p) - 1)
             /\ Cardinality({p[i] : i \in 1..Len(p)}) = Len(p)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Clause(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
