------------------------------- MODULE TrDist --------------------------------
(***************************************************************************)
(* Traces of distributed operators (harness/d_dist.cpp), gathered from all *)
(* processes.  State: the layout in force.  Every product a process        *)
(* reports must be its share of the product with the global matrix that    *)
(* the local operators add up to.                                          *)
(***************************************************************************)
EXTENDS TraceBase, DistOp
VARIABLES i, L
vars == <<i, L>>
E == Log[i]
Init == i = 1 /\ L = [np |-> 0]
Step(op) == i <= LogLen /\ E.op = op /\ i' = i + 1
AllInside(Y) == \A k \in 1..Len(Y) : WellFormed(Y[k])

\* local operators are given as they are; or the global matrix is (user numbering), with the part of it the operator holds
NewLayout ==
    /\ Step("layout")
    /\ L' = [np |-> E.np, to |-> E.to, ts |-> E.ts, so |-> E.so, ss |-> E.ss, pt |-> E.pt, ps |-> E.ps, sym |-> E.sym, ops |-> E.ops,
             G |-> IF ~Has(E, "whole") THEN GlobalOf(E.nt, E.ns, E.to, E.ops)
                   ELSE LET A == Gather(E.whole, E.pt, E.ps)
                            own(r, c) == E.scope = "all" \/ \E p \in 1..E.np : r > E.to[p] /\ r <= E.to[p] + E.ts[p] /\ c > E.so[p] /\ c <= E.so[p] + E.ss[p]
                            B == IF E.scope = "all" THEN A
                                 ELSE LET P(r, c) == IF own(r, c) THEN RePart(A, r, c) ELSE 0
                                          Q(r, c) == IF own(r, c) THEN ImPart(A, r, c) ELSE 0
                                      IN IF IsCplx(A) THEN MkC(A.m, A.n, P, Q) ELSE MkR(A.m, A.n, P)
                        IN FoldLeft(LAMBDA acc, o : AddAt(acc, Contribution(o), E.to[o.p], o.c0), B, E.ops)]
    /\ Report(i, E, Clause("parts of the targets", Consecutive(E.nt, E.to, E.ts)) \cup Clause("parts of the sources", Consecutive(E.ns, E.so, E.ss))
                    \cup Clause("renumbering", IsPerm(E.pt) /\ IsPerm(E.ps) /\ Len(E.pt) = E.nt /\ Len(E.ps) = E.ns))
\* a declared symmetry must be one
Declared == (L.sym = "S" => MatEq(L.G, Transpose(L.G))) /\ (L.sym = "H" => MatEq(L.G, Conj(Transpose(L.G))))
Prod ==
    /\ Step("prod") /\ UNCHANGED L
    /\ LET I == InSide(L, E.t) O == OutSide(L, E.t) IN
       Report(i, E, IF ~Declared \/ ~InputFits(I, L.np, E.in, E.X) THEN {"harness: layout or input"}
                    ELSE LET Y == TLCEval(Product(L, E.t, Assemble(I, E.in, E.num, E.X))) IN
                         UNION {Clause("result of process " \o ToString(k), E.Y[k].n = Y.n /\ WellFormed(E.Y[k]) /\ MatEq(E.Y[k], Deliver(O, E.out, E.num, Y, k))) : k \in 1..L.np}
                         \cup Clause("results of all processes", Len(E.Y) = L.np)
                         \cup Clause("error reported", E.err = 0) \cup Clause("input modified", E.kept))
\* rows of each process times a range of columns
Sub ==
    /\ Step("sub") /\ UNCHANGED L
    /\ Report(i, E, IF E.offset < 0 \/ E.size < 0 \/ E.offset + E.size > L.G.n \/ E.X[1].m # E.size THEN {"harness: range"}
                    ELSE LET Y == TLCEval(MulMat(SubMat(L.G, 0, L.G.m, E.offset, E.size), E.X[1])) IN
                         UNION {Clause("result of process " \o ToString(k), WellFormed(E.Y[k]) /\ MatEq(E.Y[k], Slice(Y, L.to[k], L.ts[k]))) : k \in 1..L.np}
                         \cup Clause("error reported", E.err = 0))
\* a local operator on its own: it reads and writes its own range only
Alone ==
    /\ Step("alone") /\ UNCHANGED L
    /\ Report(i, E, IF E.k \notin 1..Len(L.ops) THEN {"harness: operator"}
                    ELSE LET o == L.ops[E.k] C == TLCEval(Contribution(o)) IN
                         Clause("result of a local operator", WellFormed(E.Y) /\ Shape(E.Y, E.Y0.m, E.Y0.n) /\ MatEq(E.Y, LocalEffect(o.c0, C, E.t, E.alpha, E.beta, E.X, E.Y0)))
                         \cup Clause("error reported", E.err = 0))
\* pieces put together on every process
Together ==
    /\ Step("gather") /\ UNCHANGED L
    /\ LET S == IF E.side = "t" THEN OutSide(L, "N") ELSE InSide(L, "N") IN
       Report(i, E, IF ~InputFits(S, L.np, "L", E.X) THEN {"harness: pieces"}
                    ELSE LET Y == Stack(S.n, E.X[1].n, E.X, S.o) IN UNION {Clause("result of process " \o ToString(k), MatEq(E.Y[k], Y)) : k \in 1..L.np})
\* objects the builders hand out stand for a rectangle of the operator
Part ==
    /\ Step("part") /\ UNCHANGED L
    /\ Report(i, E, UNION {LET r == E.R[k] IN
                           IF ~Inside(L.G, r.r0, r.nr, r.c0, r.nc) THEN {"rectangle of process " \o ToString(k)}
                           ELSE Clause(E.what \o " of process " \o ToString(k), WellFormed(E.Y[k]) /\ MatEq(E.Y[k], SubMat(L.G, r.r0, r.nr, r.c0, r.nc)))
                                \cup Clause("place of the " \o E.what \o " of process " \o ToString(k),
                                            /\ r.r0 = L.to[k] /\ r.nr = L.ts[k]
                                            /\ (E.wide => r.c0 = 0 /\ r.nc = L.G.n) /\ (~E.wide => r.c0 = L.so[k] /\ r.nc = L.ss[k])) : k \in 1..L.np})
Colls ==
    /\ Step("colls") /\ UNCHANGED L
    /\ Report(i, E, Clause("collective calls of the processes do not match", CollectivesMatch(E.C)))
Stop == i = LogLen + 1 /\ Finished(i - 1) /\ i' = i + 1 /\ UNCHANGED L
Next == NewLayout \/ Prod \/ Sub \/ Alone \/ Together \/ Part \/ Colls \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
