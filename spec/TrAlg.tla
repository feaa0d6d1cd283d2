------------------------------- MODULE TrAlg --------------------------------
(***************************************************************************)
(* Acceptor for traces of the algebra drivers (d_alg, d_lrmat, d_dense).   *)
(* The store of Algebra is advanced by the operation each event names; the *)
(* observed value of every object the driver looked at must be the value   *)
(* the store holds.                                                        *)
(***************************************************************************)
EXTENDS Algebra, TraceBase
VARIABLES i, st, kept   \* kept: matrices remembered from before a factorisation
vars == <<i, st, kept>>
E == Log[i]

Obj(e) == [m |-> e.M, lay |-> IF Has(e, "lay") THEN e.lay ELSE <<>>,
           pt |-> IF Has(e, "pt") THEN e.pt ELSE <<>>, ps |-> IF Has(e, "ps") THEN e.ps ELSE <<>>, fac |-> ""]
Fine(A) == WellFormed(A) /\ InRange(A)

\* observations of an event: sequence of [o, M, lay?, rk?]
ObsOK(s, e, o) == MatEq(o.M, s[o.o].m)
LayOK(s, e, o) == ~Has(o, "lay") \/ o.lay = s[o.o].lay
RkOK(o) == ~Has(o, "rk") \/ (o.rk[1] = o.M.m /\ o.rk[4] = o.M.n /\ o.rk[2] = o.rk[3] /\ o.rk[2] >= 0)
Role(e, o) == IF Has(e, "C") /\ o.o = e.C.o THEN "result" ELSE IF Has(e, "X") /\ o.o = e.X.o THEN "result" ELSE "operand " \o o.o
ObsClauses(s, e) ==
    UNION {LET o == e.obs[k] IN
           IF o.o \notin DOMAIN s THEN {"unknown object " \o o.o}
           ELSE Clause(Role(e, o) \o " has the wrong value", ObsOK(s, e, o))
                \cup Clause(Role(e, o) \o " changed its block layout", LayOK(s, e, o))
                \cup Clause(Role(e, o) \o " has inconsistent factors", RkOK(o)) : k \in 1..Len(e.obs)}
ErrClauses(e) == IF ~Has(e, "err") THEN {} ELSE Clause("an error was reported", e.err = 0)
\* adopt what was observed, so that one wrong operation is reported once
Adopt(s, e) == LET pick == {k \in 1..Len(e.obs) : e.obs[k].o \in DOMAIN s} IN
    [n \in DOMAIN s |-> LET ks == {k \in pick : e.obs[k].o = n} IN
        IF ks = {} THEN s[n]
        ELSE LET o == e.obs[CHOOSE k \in ks : TRUE] IN
             [s[n] EXCEPT !.m = o.M, !.lay = IF Has(o, "lay") THEN o.lay ELSE @]]

Known(r) == r.o \in DOMAIN st
FineRef(r) == Known(r) /\ Fine(st[r.o].m) /\ (r.nr < 0 \/ Inside(st[r.o].m, r.r0, r.nr, r.c0, r.nc))
Skip(e, clauses) == Report(i, e, clauses) /\ st' = Adopt(st, e)
Advance(e, s) == Report(i, e, ObsClauses(s, e) \cup ErrClauses(e)) /\ st' = Adopt(s, e)

Init == i = 1 /\ st = <<>> /\ kept = <<>>
Step(op) == i <= LogLen /\ E.op = op /\ i' = i + 1
With(f, k, v) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]
Without(f, ks) == [n \in DOMAIN f \ ks |-> f[n]]

Case == Step("case") /\ st' = <<>> /\ kept' = <<>>
Let == /\ Step("let") /\ kept' = kept
       /\ LET s == With(st, E.x, Obj(E)) IN Report(i, E, ObsClauses(s, E)) /\ st' = Adopt(s, E)
Mul == /\ Step("mul") /\ kept' = kept
       /\ IF ~(FineRef(E.A) /\ FineRef(E.B) /\ FineRef(E.C)) THEN Skip(E, {})
          ELSE IF ~Conforming(E, RefMat(st, E.A), RefMat(st, E.B), RefMat(st, E.C)) THEN Skip(E, {"shapes do not conform"})
          ELSE Advance(E, MulEff(st, E))
\* a combination the interface does not support: either it says so (then nothing is claimed
\* about the result), or the result is right
Unsupported == /\ Step("unsupported") /\ kept' = kept
               /\ IF E.err > 0 THEN st' = Adopt(st, E)
                  ELSE IF ~(FineRef(E.A) /\ FineRef(E.B) /\ FineRef(E.C)) THEN Skip(E, {})
                  ELSE IF ~Conforming(E, RefMat(st, E.A), RefMat(st, E.B), RefMat(st, E.C)) THEN Skip(E, {"shapes do not conform"})
                  ELSE LET bad == ObsClauses(MulEff(st, E), E) IN
                       Skip(E, IF bad = {} THEN {} ELSE {"unsupported operation neither reported nor computed"})
Scale == Step("scale") /\ kept' = kept /\ IF ~FineRef(E.X) THEN Skip(E, {}) ELSE Advance(E, ScaleEff(st, E))
\* a sum of blocks neither of which contains the other may be refused, with a message
Add == /\ Step("add") /\ kept' = kept
       /\ IF ~(FineRef(E.X) /\ FineRef(E.Y)) THEN Skip(E, {})
          ELSE IF Has(E, "refusable") /\ E.err > 0 THEN (IF E.refusable THEN st' = Adopt(st, E) ELSE Skip(E, {"a supported sum was refused"}))
          ELSE Advance(E, AddEff(st, E))
TransposeOf == Step("transpose") /\ kept' = kept /\ IF ~(FineRef(E.X) /\ FineRef(E.Y)) THEN Skip(E, {}) ELSE Advance(E, TransposeEff(st, E))

\* copies: the destination stands for the same matrix; a moved-from object is gone
SameInfo(e) == IF Has(e, "infox") THEN Clause("parameters and statistics of the copy differ", e.infox = e.infoy) ELSE {}
Copy == /\ Step("copy") /\ kept' = IF E.y \in DOMAIN kept THEN With(kept, E.x, kept[E.y]) ELSE Without(kept, {E.x})
        /\ LET s == With(st, E.x, st[E.y]) IN Report(i, E, ObsClauses(s, E) \cup ErrClauses(E) \cup SameInfo(E)) /\ st' = Adopt(s, E)
Move == /\ Step("move") /\ kept' = Without(IF E.y \in DOMAIN kept THEN With(kept, E.x, kept[E.y]) ELSE kept, {E.y})
        /\ LET s == Without(With(st, E.x, st[E.y]), {E.y}) IN Report(i, E, ObsClauses(s, E) \cup ErrClauses(E) \cup SameInfo(E)) /\ st' = Adopt(s, E)
Drop == /\ Step("drop") /\ kept' = Without(kept, {E.x})
        /\ LET s == Without(st, {E.x}) IN Advance(E, s)

\* settings of an object are part of its value: they are whatever was last set on that very object
Tune == /\ Step("tune") /\ kept' = kept
        /\ LET s == [st EXCEPT ![E.x] = With(@, "par", E.par)] IN Report(i, E, ObsClauses(s, E)) /\ st' = Adopt(s, E)
Settings == /\ Step("settings") /\ UNCHANGED <<st, kept>>
            /\ Report(i, E, UNION {LET o == E.of[k] IN
                   IF o.o \notin DOMAIN st THEN {}
                   ELSE IF ~Has(st[o.o], "par") THEN {} ELSE Clause("settings of an object", o.par = st[o.o].par) : k \in 1..Len(E.of)})

\* factorisation: the object now holds factors; the matrix is remembered
Factor == /\ Step("factor")
          /\ Report(i, E, ErrClauses(E) \cup ObsClauses(Without(st, {E.x}), E))
          /\ st' = [st EXCEPT ![E.x].fac = E.how] /\ kept' = With(kept, E.x, st[E.x].m)
\* the solution must satisfy the system with the matrix before factorisation
InUser(o) == Len(o.pt) > 0
Solve == /\ Step("solve") /\ kept' = kept /\ st' = st
         /\ LET o == st[E.x] A == kept[E.x] IN
            Report(i, E, IF ~(Fine(A) /\ Fine(E.B)) THEN {}
                         ELSE IF ~(Shape(E.X, E.B.m, E.B.n) /\ InRange(E.X)) THEN {"no finite integral solution"}
                         ELSE IF Has(E, "side") /\ E.side = "R" \* X op(A) = B
                              THEN Clause("the returned solution does not solve the system", MatEq(MulMat(E.X, Op(E.t, A)), E.B))
                         ELSE IF E.num = "user"
                              THEN Clause("the returned solution does not solve the system", Solved(E.t, A, GatherRows(E.B, E.pt), GatherRows(E.X, E.pt)))
                              ELSE Clause("the returned solution does not solve the system", Solved(E.t, A, E.B, E.X))
                         \cup ErrClauses(E))
\* triangular solve in place: X (an object, possibly hierarchical) is replaced
TriSolve == /\ Step("trisolve") /\ kept' = kept
            /\ IF ~(FineRef(E.A) /\ FineRef(E.X)) THEN Skip(E, {})
               ELSE LET A == RefMat(st, E.A) B == RefMat(st, E.X) ks == {k \in 1..Len(E.obs) : E.obs[k].o = E.X.o} IN
                    IF ks = {} THEN Skip(E, {"no result"})
                    ELSE LET R == E.obs[CHOOSE k \in ks : TRUE].M IN
                         IF ~(WellFormed(R) /\ R.m = st[E.X.o].m.m /\ R.n = st[E.X.o].m.n /\ InRange(R)) THEN Skip(E, {"no finite integral solution"})
                         ELSE LET Y == IF E.X.nr < 0 THEN R ELSE SubMat(R, E.X.r0, E.X.nr, E.X.c0, E.X.nc)
                                  s == [Write(st, E.X, Y) EXCEPT ![E.X.o].lay = <<>>] IN
                              /\ Report(i, E, Clause("the result does not solve the triangular system", TriSolved(E, A, B, Y))
                                              \cup ErrClauses(E)
                                              \cup ObsClauses(s, [E EXCEPT !.obs = [k \in 1..Len(E.obs) |-> IF E.obs[k].o = E.X.o THEN [o |-> E.obs[k].o, M |-> E.obs[k].M] ELSE E.obs[k]]]))
                              /\ st' = Adopt(s, E)

\* extraction
Extract == /\ Step("extract") /\ UNCHANGED <<st, kept>>
           /\ LET A == IF Known(E.X) THEN RefMat(st, E.X) ELSE ZeroMat(0, 0)
                  o == st[E.X.o]
                  D == [k \in 1..A.m |-> <<RePart(A, k, k), ImPart(A, k, k)>>] IN
              Report(i, E, CASE E.what = "dense" -> Clause("dense copy (cluster numbering)",
                                     IF E.stored = "" THEN MatEq(E.R, A)
                                     ELSE Shape(E.R, A.m, A.n) /\ MatEq(Tri(E.R, E.stored), Tri(A, E.stored)))
                             [] E.what = "dense user" -> Clause("dense copy (user numbering)", Shape(E.R, A.m, A.n) /\ MatEq(Gather(E.R, E.pt, E.ps), A))
                             [] E.what = "diag" -> Clause("diagonal", E.R.m = A.m /\ E.R.n = 1 /\ \A k \in 1..A.m : RePart(E.R, k, 1) = D[k][1] /\ ImPart(E.R, k, 1) = D[k][2])
                             [] E.what = "diag user" -> Clause("diagonal (user numbering)", E.R.m = A.m /\ E.R.n = 1 /\ \A k \in 1..A.m : RePart(E.R, E.pt[k] + 1, 1) = D[k][1] /\ ImPart(E.R, E.pt[k] + 1, 1) = D[k][2])
                             [] E.what = "sub" -> Clause("lookup of a block in the structure", E.found = E.exists)
                                                  \cup (IF E.found /\ E.exists THEN Clause("block found by lookup", MatEq(E.R, A)) ELSE {})
                             [] OTHER -> {"unknown extraction"})

\* runs that may differ in schedule only must report the same
Agree == /\ Step("agree") /\ UNCHANGED <<st, kept>>
         /\ Report(i, E, Clause(E.what \o " depend on the schedule", E.a = E.b)
                         \cup Clause("number of refused compressions", E.fp = E.refused))
\* no two threads may touch the same location, one of them writing, without an order between them
Conflicts == /\ Step("conflicts") /\ UNCHANGED <<st, kept>>
             /\ Report(i, E, Clause("conflicting unordered accesses", E.n = 0))

\* the distance of a (truncated) low-rank matrix to a reference, squared
Misfit == /\ Step("misfit") /\ UNCHANGED <<st, kept>>
          /\ LET D == AddMat(E.G, ScaleMat(<<-1, 0>>, MulMat(SubMat(E.U, 0, E.U.m, 0, E.r), SubMat(E.V, 0, E.r, 0, E.V.n))))
                 ai == ImSeq(D)
                 Sum[k \in 0..Len(D.d)] == IF k = 0 THEN 0 ELSE Sum[k - 1] + D.d[k] * D.d[k] + ai[k] * ai[k] IN
             Report(i, E, Clause("error with respect to a reference", E.sq = Sum[Len(D.d)])
                    \cup Clause("space saving", E.saving = 16 * ((E.G.m * E.G.n) - (E.U.n * (E.G.m + E.G.n)))))

Stop == i = LogLen + 1 /\ Finished(i - 1) /\ i' = i + 1 /\ UNCHANGED <<st, kept>>
Next == Case \/ Let \/ Mul \/ Unsupported \/ Scale \/ Add \/ TransposeOf \/ Copy \/ Move \/ Drop \/ Tune \/ Settings \/ Factor \/ Solve \/ TriSolve \/ Extract \/ Agree \/ Conflicts \/ Misfit \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
