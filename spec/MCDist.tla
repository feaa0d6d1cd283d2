------------------------------- MODULE MCDist --------------------------------
(***************************************************************************)
(* The distributed products as concurrent processes: each one works on its *)
(* own data only and exchanges through collectives, which match by their   *)
(* order on the communicator.  Checked over all layouts, programs of calls *)
(* and interleavings: whoever finishes a call holds its share of the       *)
(* global product, and nobody waits forever.                               *)
(* Behaviours are written (HIST@) for the driver to replay on real MPI     *)
(* processes.                                                              *)
(***************************************************************************)
EXTENDS DistOp
CONSTANTS NPs, Sizes, Shapes, Calls, Len1, Emit
VARIABLES lay, prog, pc, dep, res, hist
vars == <<lay, prog, pc, dep, res, hist>>

\* deterministic small contents
Val(p, i, j) == ((3 * p + 5 * i + 7 * j + i * j) % 5) - 2
SVal(i, j) == ((4 * (i + j) + 3 * i * j) % 5) - 2
Offs(s) == TLCEval([k \in 1..Len(s) |-> SumSeq(SubSeq(s, 1, k - 1))])
Op1(p, c0, m, n, M) == [p |-> p, c0 |-> c0, sym |-> "N", uplo |-> "L", tp |-> Ident(m), sp |-> Ident(n), M |-> M]
Blk(sym, to, ts, p, c0, n) == MkR(ts[p], n, LAMBDA i, j : IF sym = "N" THEN Val(p, to[p] + i, c0 + j) ELSE SVal(to[p] + i, c0 + j))
\* how process p covers its rows: one strip, a block per part (the diagonal one stored as a triangle), overlapping ranges, nothing
OpsOf(shape, sym, to, ts, so, ss, ns, p) ==
    LET np == Len(ts)
        strip == <<Op1(p, 0, ts[p], ns, Blk(sym, to, ts, p, 0, ns))>>
        blocks == [q \in 1..np |-> LET o == Op1(p, so[q], ts[p], ss[q], Blk(sym, to, ts, p, so[q], ss[q])) IN
                                   IF q = p /\ sym # "N" THEN [o EXCEPT !.sym = sym, !.M = Tri(@, "L")] ELSE o]
        over == <<Op1(p, 0, ts[p], ns - 1, Blk(sym, to, ts, p, 0, ns - 1)), Op1(p, 1, ts[p], ns - 1, Blk(sym, to, ts, p, 1, ns - 1))>>
    IN CASE shape = "strip" -> strip [] shape = "blocks" -> blocks
         [] shape = "over" -> (IF ns = 1 \/ sym # "N" THEN strip ELSE over)
         [] shape = "uneven" -> (IF sym # "N" THEN blocks ELSE IF p = 1 THEN <<>> ELSE IF p % 2 = 0 THEN strip ELSE blocks)
Layout(sym, shape, ts, ss) ==
    LET to == Offs(ts) so == Offs(ss) ns == SumSeq(ss) nt == SumSeq(ts)
        ops == FoldLeft(LAMBDA a, p : a \o OpsOf(shape, sym, to, ts, so, ss, ns, p), <<>>, [p \in 1..Len(ts) |-> p])
    IN [np |-> Len(ts), sym |-> sym, shape |-> shape, to |-> to, ts |-> ts, so |-> so, ss |-> ss, pt |-> Ident(nt), ps |-> Ident(ns),
        ops |-> ops, ready |-> TRUE, G |-> GlobalOf(nt, ns, to, ops)]
Procs == 1..lay.np
Mine(p) == SelectSeq(lay.ops, LAMBDA o : o.p = p)
\* rows of process p, assembled from its own local operators only
Rows(p) == GlobalOf(lay.ts[p], lay.G.n, [q \in 1..lay.np |-> 0], Mine(p))
Input(n) == MkR(n, 1, LAMBDA i, j : (i % 3) - 1 + (i % 2))

\* parts are sized one after the other, then the processes start; the program of calls is the same for all and
\* is decided by whoever gets to a call first
Init == /\ lay \in [np : NPs, sym : {"N", "S"}, shape : Shapes, ts : {<<>>}, ss : {<<>>}, ready : {FALSE}]
        /\ prog = <<>>
        /\ pc = [p \in Procs |-> 1] /\ dep = [p \in Procs |-> <<>>] /\ res = [p \in Procs |-> <<>>] /\ hist = <<>>
Grow == /\ ~lay.ready /\ Len(lay.ts) < lay.np
        /\ \E a \in Sizes, b \in Sizes : (lay.sym # "N" => a = b) /\ lay' = [lay EXCEPT !.ts = Append(@, a), !.ss = Append(@, b)]
        /\ UNCHANGED <<prog, pc, dep, res, hist>>
Start == /\ ~lay.ready /\ Len(lay.ts) = lay.np
         /\ lay' = (IF Emit THEN [lay EXCEPT !.ready = TRUE] ELSE TLCEval(Layout(lay.sym, lay.shape, lay.ts, lay.ss)))
         /\ UNCHANGED <<prog, pc, dep, res, hist>>

\* effective direction: a symmetric operator is its own transpose (not for products whose pieces are summed for everybody)
Dir(c) == IF lay.sym # "N" /\ c.in = c.out THEN "N" ELSE c.t
X(c) == Input(InSide(lay, c.t).n)
Piece(c, p) == LET S == InSide(lay, c.t) IN Slice(X(c), S.o[p], S.s[p])
\* enter call k: compute from own data, hand over to the collective
Enter(p) ==
    LET k == pc[p] IN
    /\ lay.ready /\ k <= Len1 /\ Len(dep[p]) = k - 1
    /\ \E c \in (IF k <= Len(prog) THEN {prog[k]} ELSE Calls) :
       /\ prog' = (IF k <= Len(prog) THEN prog ELSE Append(prog, c))
       /\ dep' = [dep EXCEPT ![p] = Append(@,
          IF Emit THEN 0 ELSE IF Dir(c) = "N" THEN (IF c.in = "G" THEN MulMat(Rows(p), X(c)) ELSE Piece(c, p))
          ELSE MulMat(Transpose(Rows(p)), Piece(c, p)))]
    /\ hist' = Append(hist, p) /\ UNCHANGED <<lay, pc, res>>
\* leave it once everybody has entered
Leave(p) ==
    LET k == pc[p] c == prog[k]
        got == [q \in Procs |-> dep[q][k]] IN
    /\ lay.ready /\ k <= Len(prog) /\ \A q \in Procs : Len(dep[q]) >= k
    /\ res' = [res EXCEPT ![p] = Append(@,
          IF Emit THEN 0 ELSE IF Dir(c) = "N" THEN (IF c.in = "G" THEN Stack(lay.G.m, 1, got, lay.to) ELSE MulMat(Rows(p), Stack(lay.G.n, 1, got, lay.so)))
          ELSE LET sum == FoldLeft(LAMBDA a, q : AddMat(a, got[q]), ZeroMat(lay.G.n, 1), [q \in Procs |-> q]) IN
               IF c.out = "G" THEN sum ELSE Slice(sum, lay.so[p], lay.ss[p]))]
    /\ pc' = [pc EXCEPT ![p] = @ + 1]
    /\ hist' = hist /\ UNCHANGED <<lay, prog, dep>>
Finished == \A p \in Procs : pc[p] = Len1 + 1
Write == /\ Emit /\ Finished /\ Len(hist) = lay.np * Len(prog)
         /\ PrintT("HIST@" \o lay.sym \o ";" \o lay.shape \o ";" \o FoldLeft(LAMBDA a, x : a \o ToString(x) \o ",", "", lay.ts)
                  \o ";" \o FoldLeft(LAMBDA a, x : a \o ToString(x) \o ",", "", lay.ss)
                  \o ";" \o FoldLeft(LAMBDA a, c : a \o c.t \o c.in \o c.out \o ",", "", prog)
                  \o ";" \o FoldLeft(LAMBDA a, x : a \o ToString(x) \o ",", "", hist))
         /\ hist' = Append(hist, 0) /\ UNCHANGED <<lay, prog, pc, dep, res>>
Next == Grow \/ Start \/ (\E p \in Procs : Enter(p) \/ Leave(p)) \/ Write
Spec == Init /\ [][Next]_vars
\* the order of entries only matters when behaviours are written (and nothing is computed then)
View == <<lay.np, lay.ready, lay.sym, lay.shape, lay.ts, lay.ss, prog, pc, dep, res, IF Emit THEN hist ELSE <<>>>>

Correct == lay.ready => \A p \in Procs : \A k \in 1..Len(res[p]) :
    LET c == prog[k] IN
    MatEq(res[p][k], Deliver(OutSide(lay, c.t), c.out, "part", Product(lay, c.t, X(c)), p))
\* both ways of looking at the operator agree
Consistent == lay.ready =>
              /\ Consecutive(lay.G.m, lay.to, lay.ts) /\ Consecutive(lay.G.n, lay.so, lay.ss)
              /\ (lay.sym = "S" => MatEq(lay.G, Transpose(lay.G)))
NoStall == ~lay.ready \/ (\E p \in Procs : ENABLED Enter(p) \/ ENABLED Leave(p)) \/ Finished
CallNGG == [t |-> "N", in |-> "G", out |-> "G"]
CallNLL == [t |-> "N", in |-> "L", out |-> "L"]
CallTGG == [t |-> "T", in |-> "G", out |-> "G"]
CallTLG == [t |-> "T", in |-> "L", out |-> "G"]
CallTLL == [t |-> "T", in |-> "L", out |-> "L"]
AllCalls == {CallNGG, CallNLL, CallTGG, CallTLG, CallTLL}
=============================================================================
