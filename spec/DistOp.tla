------------------------------- MODULE DistOp --------------------------------
(***************************************************************************)
(* A distributed operator: processes 1..np own consecutive parts of the    *)
(* rows (targets) and of the columns (sources), and each holds local       *)
(* operators covering its rows and some range of columns.  A layout is     *)
(*   [np, to, ts, so, ss : offsets and sizes of the parts,                 *)
(*    pt, ps : renumberings (position -> user index, 0-based),             *)
(*    G : the global matrix, partition numbering].                         *)
(***************************************************************************)
EXTENDS LinAlg
Ident(n) == TLCEval([i \in 1..n |-> i - 1])
\* what one local operator adds to its process's rows: stored triangle mirrored, own numbering undone
Contribution(o) ==
    LET M == FullFromTri(o.M, o.sym, o.uplo) IN
    Reindex(M, M.m, M.n, LAMBDA i, j : InvPerm(o.tp)[i] + 1, LAMBDA i, j : InvPerm(o.sp)[j] + 1)
GlobalOf(nt, ns, to, ops) ==
    FoldLeft(LAMBDA acc, o : AddAt(acc, Contribution(o), to[o.p], o.c0), ZeroMat(nt, ns), ops)

\* effect of the local operator C (columns c0..) on its process's rows (N) or on the globally indexed output (T)
LocalEffect(c0, C, t, alpha, beta, X, Y0) ==
    IF t = "N" THEN Axpby(alpha, MulMat(C, SubMat(X, c0, C.n, 0, X.n)), beta, Y0)
    ELSE LET Old == SubMat(Y0, c0, C.n, 0, Y0.n)
             New == Axpby(alpha, MulMat(Transpose(C), X), beta, Old)
         IN AddAt(Y0, Axpby(One, New, <<-1, 0>>, Old), c0, 0)

Slice(X, o, s) == SubMat(X, o, s, 0, X.n)
LocalPerm(perm, o, s) == TLCEval([i \in 1..s |-> perm[o + i] - o])
Stack(n, mu, pieces, off) == FoldLeft(LAMBDA acc, k : AddAt(acc, pieces[k], off[k], 0), ZeroMat(n, mu), [k \in 1..Len(pieces) |-> k])

\* side of the operator the input / output of a product lives on
InSide(L, t) == IF t = "N" THEN [n |-> L.G.n, o |-> L.so, s |-> L.ss, p |-> L.ps] ELSE [n |-> L.G.m, o |-> L.to, s |-> L.ts, p |-> L.pt]
OutSide(L, t) == IF t = "N" THEN [n |-> L.G.m, o |-> L.to, s |-> L.ts, p |-> L.pt] ELSE [n |-> L.G.n, o |-> L.so, s |-> L.ss, p |-> L.ps]

\* assemble the input: given whole to everyone ("G") or in pieces ("L"), in user or partition numbering
Assemble(S, scope, num, X) ==
    IF scope = "G" THEN (IF num = "user" THEN GatherRows(X[1], S.p) ELSE X[1])
    ELSE Stack(S.n, X[1].n, [k \in 1..Len(X) |-> IF num = "user" THEN GatherRows(X[k], LocalPerm(S.p, S.o[k], S.s[k])) ELSE X[k]], S.o)
\* what process k receives of the result Y
Deliver(S, scope, num, Y, k) ==
    IF scope = "G" THEN (IF num = "user" THEN ScatterRows(Y, S.p) ELSE Y)
    ELSE LET Z == Slice(Y, S.o[k], S.s[k]) IN IF num = "user" THEN ScatterRows(Z, LocalPerm(S.p, S.o[k], S.s[k])) ELSE Z
Product(L, t, X) == MulMat(Op(t, L.G), X)
InputFits(S, np, scope, X) ==
    IF scope = "G" THEN Len(X) = 1 /\ WellFormed(X[1]) /\ X[1].m = S.n
    ELSE Len(X) = np /\ \A k \in 1..np : WellFormed(X[k]) /\ X[k].m = S.s[k] /\ X[k].n = X[1].n

Consecutive(n, o, s) == /\ Len(o) = Len(s)
                        /\ \A k \in 1..Len(o) : s[k] >= 0 /\ o[k] = SumSeq(SubSeq(s, 1, k - 1))
                        /\ SumSeq(s) = n

(* Collective communications of one process, in order: <<kind, ...>>.  Two processes agree when they call the  *)
(* same collectives in the same order and every message sent is expected with its size by the receiver.        *)
CollectivesMatch(C) ==
    /\ \A p \in 1..Len(C) : Len(C[p]) = Len(C[1])
    /\ \A k \in 1..Len(C[1]) : \A p \in 1..Len(C) :
        /\ C[p][k].kind = C[1][k].kind
        /\ C[p][k].root = C[1][k].root
        /\ CASE C[p][k].kind = "allgatherv" -> /\ C[p][k].recv = C[1][k].recv
                                               /\ C[p][k].send[1] = C[p][k].recv[p]
             [] C[p][k].kind = "alltoallv" -> \A q \in 1..Len(C) : C[p][k].send[q] = C[q][k].recv[p]
             [] OTHER -> C[p][k].send = C[1][k].send
=============================================================================
