------------------------------ MODULE TrApprox -----------------------------
(***************************************************************************)
(* Compressed blocks (harness/d_approx.cpp).  What a compressor may answer *)
(* is a relation between the block's singular values, the request and the  *)
(* factors: `tails[k + 1]` is the error of the best factorisation of rank  *)
(* k, `ratio` the error of the returned one, both in thousandths of the    *)
(* tolerance and rounded up; `round` is its error in units of 1e-13.       *)
(* Greedy compressors estimate their own error, so single answers may miss *)
(* the tolerance by a constant; the state counts how many answers of each  *)
(* compressor missed it at all, which must stay the exception.             *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES i, seen, over, far
vars == <<i, seen, over, far>>
E == Log[i]
Hows == {"svd", "full", "partial", "symmetric", "default"}
Optimal(how) == how \in {"svd", "full"}           \* these measure their own error
Within == 1000
Modest(how) == IF Optimal(how) THEN Within + 1 ELSE 100000
Rounding == 100
\* least rank of a factorisation that meets the tolerance
Needed(e) == CHOOSE k \in 0..(Len(e.tails) - 1) : e.tails[k + 1] <= Within /\ \A j \in 0..(k - 1) : e.tails[j + 1] > Within
Least(a, b) == IF a < b THEN a ELSE b
Worth(e, k) ==                                   \* stores less than the block itself
    IF e.m > 10000 /\ e.n > 10000 THEN 2 * k <= (IF e.m < e.n THEN e.m ELSE e.n)   \* products would not fit
    ELSE k * (e.m + e.n) <= e.m * e.n
Slack(how) == IF how = "svd" THEN 0 ELSE 8       \* columns a greedy compressor may need more
Null(e) == e.kind = 5

Refused(e) == e.un = 0
Factors(e) == IF Refused(e) THEN Clause("a refusal reports a rank", e.reported <= 0)
            ELSE Clause("the shapes of the factors do not match", e.um = e.m /\ e.vn = e.n /\ e.un = e.vm)
                 \cup Clause("the reported rank is not the inner size", e.reported = e.un)
                 \cup Clause("the rank exceeds the block", e.un <= Least(e.m, e.n))
Exact(e) == e.exact > 0
ToTolerance(e) ==
    IF Null(e) THEN IF Refused(e) THEN {} ELSE Clause("a zero block is not reproduced", e.round <= Rounding)
    ELSE IF Refused(e) THEN
        Clause("a compressible block was refused", IF e.how = "svd" THEN ~Worth(e, Needed(e)) ELSE ~Worth(e, Needed(e) + 10))
    ELSE Clause("the tolerance is not met", e.ratio <= Modest(e.how))
         \cup Clause("more is stored than the block itself", Worth(e, e.un))
         \cup Clause("the rank is far above the needed one", e.un <= Needed(e) + Slack(e.how))
         \cup Clause("a block of small rank is not reproduced", Exact(e) => (e.round <= Rounding \/ (e.un < e.exact /\ e.ratio <= Modest(e.how))))
         \cup Clause("a block of small rank got a larger one", Exact(e) => e.un <= e.exact + 1)
ToRank(e) ==
    LET k == Least(e.req, Least(e.m, e.n)) IN
    IF Null(e) THEN {}
    ELSE IF Refused(e) THEN Clause("a block was refused although the rank was prescribed", e.how # "svd" /\ ~Worth(e, k))
    \* a greedy compressor stops once nothing is left to approximate
    ELSE Clause("the prescribed rank is not delivered", e.un = k \/ (e.how # "svd" /\ e.un < k /\ e.round <= Rounding))
         \cup Clause("not the best factorisation of that rank", e.un = k => IF e.how = "svd" THEN e.best <= 1001 ELSE IF e.how = "full" THEN e.best <= 100000 ELSE TRUE)
         \cup Clause("a block of small rank is not reproduced", (Exact(e) /\ e.un >= e.exact) => e.round <= Rounding)
Poor(e) == e.req > 0 /\ ~Refused(e) /\ e.best > 20000
Bump(f, how, c) == IF c THEN [f EXCEPT ![how] = @ + 1] ELSE f

Init == i = 1 /\ seen = [h \in Hows |-> 0] /\ over = seen /\ far = seen
Step(op) == i <= LogLen /\ E.op = op /\ i' = i + 1
Case == Step("case") /\ UNCHANGED <<seen, over, far>>
Compress ==
    /\ Step("compress")
    /\ Report(i, E, Factors(E) \cup (IF E.req > 0 THEN ToRank(E) ELSE ToTolerance(E)))
    /\ seen' = Bump(seen, E.how, TRUE)
    /\ over' = Bump(over, E.how, E.req < 0 /\ ~Refused(E) /\ E.ratio > Within)
    /\ far' = Bump(far, E.how, Poor(E))
(* a leaf of an assembled matrix: <<rows, columns, dense, rank, error, rounding>> *)
Leaf(e, b) ==
    IF b[3] = 1 THEN Clause("an uncompressed block is not exact", b[5] = 0)
    ELSE Clause("the tolerance is not met in a block", b[5] <= Modest(e.how))
         \cup Clause("a block stores more than its coefficients", b[4] * (b[1] + b[2]) <= b[1] * b[2])
         \cup Clause("a block of small rank is not reproduced", e.exact > 0 => (b[6] <= Rounding \/ (b[4] < e.exact /\ b[5] <= Modest(e.how))))
Assembled ==
    /\ Step("assembled")
    /\ LET lr == {k \in 1..Len(E.leaves) : E.leaves[k][3] = 0}
           fails == UNION {Leaf(E, E.leaves[k]) : k \in 1..Len(E.leaves)}
           worst == FoldLeft(LAMBDA a, b : IF b[3] = 0 /\ b[5] > a THEN b[5] ELSE a, 0, E.leaves)
       IN /\ Report(i, E, fails
                \cup Clause("an error was reported", E.err = 0)
                \* blocks with relative errors <= worst partition the matrix
                \cup Clause("the tolerance is not met", E.ratio <= worst + 2 /\ E.ratio <= Modest(E.how))
                \cup Clause("an operator of small rank is not reproduced",
                            (E.exact > 0 /\ (\A k \in lr : E.leaves[k][6] <= Rounding)) => E.round <= Rounding))
          /\ seen' = [seen EXCEPT ![E.how] = @ + Cardinality(lr)]
          /\ over' = [over EXCEPT ![E.how] = @ + Cardinality({k \in lr : E.leaves[k][5] > Within})]
    /\ UNCHANGED far
Recompress ==
    /\ Step("recompress") /\ UNCHANGED <<seen, over, far>>
    /\ Report(i, E, Clause("the shapes of the factors do not match", E.um = E.m /\ E.vn = E.n /\ E.un = E.vm)
                    \cup Clause("the rank grew", E.un <= E.k)
                    \cup Clause("the tolerance is not met", E.ratio <= Within + 1)
                    \cup Clause("the rank is not the least one", E.un <= Needed(E))
                    \cup Clause("the argument was changed", E.kept)
                    \cup Clause("the tolerance was changed", E.tol = 0))
(* Arithmetic with compressed operands against the dense arithmetic of     *)
(* what they store.  f names the operation: three letters for a product    *)
(* (operand, operand, target; Hierarchical, Low rank, Dense), `ratio` is   *)
(* the error over the sizes of the terms, in thousandths of the tolerance. *)
Dense == {"HHD", "HLD", "LHD", "solveD", "solveL"}   \* nothing is truncated there
Low == {"HHL", "HLL", "LHL", "HDL", "DHL", "DLL", "LLL"}
Hier == {"HHH", "HLH", "LHH", "add", "solveH"}
Bound(f) == IF f \in Low \cup Hier THEN 10000 ELSE 1000    \* of a solution of a well conditioned system
Arithmetic ==
    /\ Step("arithmetic") /\ UNCHANGED <<seen, over, far>>
    /\ Report(i, E, Clause("an error was reported", E.err = 0)
                    \cup Clause("an operand was changed: " \o E.f, E.kept = 1)
                    \cup (IF E.f \in Dense THEN Clause("not the exact result: " \o E.f, E.round <= Rounding)
                          ELSE Clause("unknown operation", E.f \in Low \cup Hier \cup {"lu", "cholesky"})
                               \cup Clause("the tolerance is not met: " \o E.f, E.ratio <= Bound(E.f) \/ E.round <= Rounding))
                    \* factors have at most 8 columns: without truncation their number is kept
                    \cup (IF E.f \in Low THEN Clause("a low rank result is not compressed: " \o E.f, E.rank <= 2 * E.least + 8) ELSE {}))
Often(h) == over[h] * 10 > seen[h] + 80 \/ far[h] * 10 > seen[h] + 80
Stop == /\ i = LogLen + 1
        /\ Report(i - 1, Log[i - 1], UNION {Clause("the answers of a compressor miss too often: " \o h, ~Often(h)) : h \in Hows})
        /\ Finished(i - 1) /\ i' = i + 1 /\ UNCHANGED <<seen, over, far>>
Next == Case \/ Compress \/ Assembled \/ Recompress \/ Arithmetic \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
