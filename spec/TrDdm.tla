------------------------------- MODULE TrDdm --------------------------------
(***************************************************************************)
(* Traces of the domain decomposition layer (harness/d_ddm.cpp), gathered  *)
(* from all processes.  State: the layout in force, levels set up.                       *)
(***************************************************************************)
EXTENDS TraceBase, Ddm
VARIABLES i, L, one, two, nev, inf
vars == <<i, L, one, two, nev, inf>>
E == Log[i]
NoInfo == [first |-> "-", second |-> "-"]
Init == i = 1 /\ L = [np |-> 0] /\ one = FALSE /\ two = FALSE /\ nev = <<>> /\ inf = NoInfo
Step(op) == i <= LogLen /\ E.op = op /\ i' = i + 1
Fine(A) == WellFormed(A) /\ InRange(A)
OfP(k) == " of process " \o ToString(k - 1)

NewLayout ==
    /\ Step("layout")
    /\ LET l == [np |-> E.np, n |-> E.n, to |-> E.to, ts |-> E.ts, pt |-> E.pt, G |-> E.G, sym |-> E.sym, ovr |-> E.ovr, nb |-> E.nb, inter |-> E.inter]
       IN L' = l /\ one' = FALSE /\ two' = FALSE /\ nev' = [k \in 1..E.np |-> 0] /\ inf' = NoInfo /\ Report(i, E, Clause("harness: layout", LayoutOK(l)))
\* what the solver object and the library behind it were set up with
Setup ==
    /\ Step("setup") /\ UNCHANGED <<L, one, two, nev, inf>>
    /\ LET nums == [k \in 1..L.np |-> Num(L, k)] IN
       Report(i, E, UNION {Clause("size" \o OfP(k), E.dof[k] = Len(nums[k]))
                           \cup Clause("numbering" \o OfP(k), E.num[k] = nums[k])
                           \cup Clause("neighbours" \o OfP(k), E.nb[k] = L.nb[k]) : k \in 1..L.np}
                    \cup (IF E.nb # L.nb THEN {} ELSE Clause("shared unknowns", \A k \in 1..L.np : Len(E.inter[k]) = Len(E.nb[k]))
                                                      \cup Clause("order of the shared unknowns", Agreeing(L, nums, E.nb, E.inter)))
                    \cup Clause("weights", PartitionOfUnity(L, E.W))
                    \cup Clause("error reported", E.err = 0))
Factor == Step("factor") /\ one' = TRUE /\ UNCHANGED <<L, two, nev, inf>> /\ Report(i, E, Clause("error reported", E.err = 0))
Local ==
    /\ Step("local") /\ UNCHANGED <<L, one, two, nev, inf>>
    /\ Report(i, E, UNION {IF ~Fine(E.B[k]) THEN {"harness: right-hand side"}
                           ELSE IF ~(Shape(E.X[k], E.B[k].m, E.B[k].n) /\ InRange(E.X[k])) THEN {"local solution" \o OfP(k) \o " is not the integral one"}
                           ELSE Clause("local solution" \o OfP(k), MatEq(MulMat(LocalMat(L, k), E.X[k]), E.B[k])) : k \in 1..L.np}
                    \cup Clause("error reported", E.err = 0))
\* the operator the iterative method applies: X is known to everybody on its subdomain, so must the result be
Apply ==
    /\ Step("apply") /\ UNCHANGED <<L, one, two, nev, inf>>
    /\ LET Y == TLCEval(MulMat(L.G, E.X)) IN
       Report(i, E, UNION {Clause("product" \o OfP(k), WellFormed(E.Y[k]) /\ MatEq(E.Y[k], RestrictTo(L, Y, k))) : k \in 1..L.np})
Rhs ==
    /\ Step("rhs") /\ UNCHANGED <<L, one, two, nev, inf>>
    /\ Report(i, E, UNION {Clause("right-hand side" \o OfP(k), WellFormed(E.Y[k]) /\ MatEq(E.Y[k], RestrictTo(L, E.B, k))) : k \in 1..L.np})
Krylov == <<"gmres", "bgmres", "cg", "bcg", "gcrodr", "bgcrodr", "bfbcg", "richardson", "none">>
NumberOf(t) == CHOOSE x \in 0..200 : ToString(x) = t
Solve ==
    /\ Step("solve") /\ UNCHANGED <<L, one, two, nev, inf>>
    /\ Report(i, E, UNION {IF ~(Shape(E.X[k], L.n, E.B.n) /\ InRange(E.X[k])) THEN {"solution" \o OfP(k) \o " is not the integral one"}
                           ELSE Clause("solution" \o OfP(k), MatEq(MulMat(L.G, E.X[k]), E.B)) : k \in 1..L.np}
                    \cup Clause("right-hand side modified", E.kept) \cup (IF two /\ ~one THEN Clause("missing factorisation not reported", E.err > 0) ELSE Clause("error reported", E.err = 0))
                    \cup Clause("preconditioner in force", E.type = E.want)
                    \cup Clause("information about the solve", E.info = <<ToString(L.np), E.method, Krylov[E.krylov + 1], "ddm", E.corr>>)
                    \cup Clause("information about the coarse space", E.method = "None" \/
                            /\ E.cmin = ToString(-Max({-nev[k] : k \in 1..L.np})) /\ E.cmax = ToString(Max({nev[k] : k \in 1..L.np}))
                            /\ E.cmean = ToString(100 * SumSeq(nev))))
\* entries of the user's own among the information
Infos ==
    /\ Step("infos") /\ UNCHANGED <<L, one, two, nev>>
    /\ LET Put(m, o) == [m EXCEPT ![o.k] = IF o.add /\ @ # "-" THEN ToString(NumberOf(@) + o.v) ELSE ToString(o.v)]
           m == FoldLeft(Put, inf, E.ops) IN
       /\ inf' = m
       /\ Report(i, E, Clause("information kept", m = [first |-> E.first, second |-> E.second]) \cup Clause("information saved", E.saved))
Coarse ==
    /\ Step("coarse") /\ UNCHANGED <<L, one, inf>> /\ two' = TRUE /\ nev' = [k \in 1..L.np |-> E.Z[k].n]
    /\ Report(i, E, LET C == TLCEval(CoarseOperator(L, E.Z))
                        \* read along rows; of a Hermitian operator either orientation will do
                        asked(M) == MatEq(M, C) \/ (L.sym = "H" /\ MatEq(M, Transpose(C))) IN
                    Clause("coarse operator", WellFormed(E.E) /\ asked(Transpose(E.E)))
                    \cup Clause("coarse operator handed over", \A k \in 1..L.np : asked(E.given[k]) /\ MatEq(E.given[k], Transpose(E.E)))
                    \cup Clause("coarse vectors handed over", \A k \in 1..L.np : MatEq(E.Zg[k], E.Z[k]))
                    \cup Clause("coarse size reported", E.size = ToString(E.E.n)) \cup Clause("size of the coarse space", \A k \in 1..L.np : E.nevi[k] = E.Z[k].n)
                    \cup Clause("error reported", E.err = 0))
\* coarse spaces from known eigenpairs; V: the vectors as columns
Space ==
    /\ Step("space") /\ UNCHANGED <<L, one, two, nev, inf>>
    /\ LET n == E.B.m
           inn(k) == k <= E.inside
           AV == TLCEval(MulMat(E.A, E.V)) BV == TLCEval(MulMat(E.B, E.V))
           mate(j) == IF E.P[j].c > 0 THEN j + 1 ELSE IF E.P[j].c < 0 THEN j - 1 ELSE j
           known == /\ \A j \in 1..n : \A r \in 1..n : LET p == E.P[j] IN
                           /\ p.b * RePart(AV, r, j) = (p.a * RePart(BV, r, j)) - (p.c * RePart(BV, r, mate(j)))
                           /\ p.b * ImPart(AV, r, j) = (p.a * ImPart(BV, r, j)) - (p.c * ImPart(BV, r, mate(j)))
                    /\ \A j \in 1..n : E.P[mate(j)].b = E.P[j].b /\ E.P[mate(j)].a = E.P[j].a /\ (mate(j) # j => E.P[mate(j)].c = -E.P[j].c)
                    /\ \A r \in 1..n, c \in 1..n : (~inn(r) \/ ~inn(c)) => RePart(E.A, r, c) = 0 /\ ImPart(E.A, r, c) = 0
           ch == TLCEval(Chosen([j \in 1..n |-> [a |-> E.P[j].a, b |-> E.P[j].b, c |-> E.P[j].c, j |-> j]], E.nu, E.t, E.s))
           want == MkC(n, Len(ch), LAMBDA r, c : IF inn(r) THEN RePart(E.V, r, ch[c].j) ELSE 0, LAMBDA r, c : IF inn(r) THEN ImPart(E.V, r, ch[c].j) ELSE 0)
       IN Report(i, E, IF ~known THEN {"harness: eigenpairs"}
                       ELSE Clause("number of coarse vectors", E.Z.n = Len(ch)) \cup (IF E.Z.n # Len(ch) THEN {} ELSE Clause("coarse vectors", MatEq(E.Z, want)))
                            \cup Clause("size of the coarse vectors", E.Z.m = n))
Stop == i = LogLen + 1 /\ Finished(i - 1) /\ i' = i + 1 /\ UNCHANGED <<L, one, two, nev, inf>>
Next == NewLayout \/ Setup \/ Factor \/ Local \/ Apply \/ Rhs \/ Solve \/ Infos \/ Coarse \/ Space \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
