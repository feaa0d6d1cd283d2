------------------------------ MODULE TrStats -------------------------------
(***************************************************************************)
(* What an hmatrix says about itself (harness/d_stats.cpp).  The state is  *)
(* the matrix as it is: its blocks, in preorder, and the parameters last   *)
(* requested for it.  Every report must be the function of that state the  *)
(* definitions below give.                                                 *)
(* A block is <<to, ts, so, ss, kind, rank, one-triangle, depth, depth it  *)
(* claims>> with kind 0 inner, 1 dense, 2 low-rank, 3 nothing stored.      *)
(* Lengths are in multiples of `unit`.  A reported number is               *)
(* <<sign, integer part / 10^6, integer part % 10^6, millionths>>.         *)
(***************************************************************************)
EXTENDS TraceBase
VARIABLES i, mat
vars == <<i, mat>>
E == Log[i]
M6 == 1000000

Of(nodes, kind) == SelectSeq(nodes, LAMBDA b : b[5] = kind)
SizeOf(b) == b[2] * b[4]
Sum(s, F(_)) == FoldLeft(LAMBDA a, b : a + F(b), 0, s)
Most(s, F(_)) == FoldLeft(LAMBDA a, b : IF F(b) > a THEN F(b) ELSE a, 0, s)
Least(s, F(_)) == IF s = <<>> THEN 0 ELSE FoldLeft(LAMBDA a, b : IF F(b) < a THEN F(b) ELSE a, F(s[1]), s)
RankOf(b) == b[6]

(*********************** reported against exact *****************************)
Plain(x) == x[1] = 1 /\ x[4] = 0
IntIs(x, v) == Plain(x) /\ x[2] = v \div M6 /\ x[3] = v % M6
\* the integer part and the millionths of (p / q) * u^2, u = 1 or 100
Dec(p, q, u) ==
    LET s == u * u
        a == p \div q
        r == (p % q) * s
        t == r \div q
        st == FoldLeft(LAMBDA acc, k : LET z == acc[2] * 10 IN <<acc[1] * 10 + z \div q, z % q>>, <<0, r % q>>, <<1, 2, 3, 4, 5, 6>>)
    IN IF u = 1 THEN <<a \div M6, a % M6, st[1]>>
       ELSE <<a \div 100, (a % 100) * 10000 + t, st[1]>>
Near(x, d) == \/ x[2] = d[1] /\ x[3] = d[2] /\ Abs(x[4] - d[3]) <= 1
              \/ d[3] = M6 - 1 /\ x[4] = 0 /\ IF d[2] = M6 - 1 THEN x[2] = d[1] + 1 /\ x[3] = 0 ELSE x[2] = d[1] /\ x[3] = d[2] + 1
RatioIs(x, p, q, u) == x[1] = 1 /\ Near(x, Dec(p, q, u))
SizeIs(x, v, u) == IF u = 1 THEN IntIs(x, v) ELSE Plain(x) /\ x[2] = v \div 100 /\ x[3] = (v % 100) * 10000
SmallIs(x, v, u) == IntIs(x, v * u)

(************************* figures of a set of leaves ***********************)
Figures(N, dense, lr, u) ==
    Clause("number of dense blocks", IntIs(N.Number_of_dense_blocks, Len(dense)))
    \cup Clause("number of low-rank blocks", IntIs(N.Number_of_low_rank_blocks, Len(lr)))
    \cup Clause("largest dense block", SizeIs(N.Dense_block_size_max, Most(dense, SizeOf), u))
    \cup Clause("smallest dense block", SizeIs(N.Dense_block_size_min, Least(dense, SizeOf), u))
    \cup Clause("mean dense block", RatioIs(N.Dense_block_size_mean, Sum(dense, SizeOf), IF dense = <<>> THEN 1 ELSE Len(dense), u))
    \cup Clause("largest low-rank block", SizeIs(N.Low_rank_block_size_max, Most(lr, SizeOf), u))
    \cup Clause("smallest low-rank block", SizeIs(N.Low_rank_block_size_min, Least(lr, SizeOf), u))
    \cup Clause("mean low-rank block", RatioIs(N.Low_rank_block_size_mean, Sum(lr, SizeOf), IF lr = <<>> THEN 1 ELSE Len(lr), u))
    \cup Clause("largest rank", IntIs(N.Rank_max, Most(lr, RankOf)))
    \cup Clause("smallest rank", IntIs(N.Rank_min, Least(lr, RankOf)))
    \cup Clause("mean rank", RatioIs(N.Rank_mean, Sum(lr, RankOf), IF lr = <<>> THEN 1 ELSE Len(lr), 1))
\* stored coefficients, in multiples of u
Stored(dense, lr, u) == Sum(lr, LAMBDA b : b[6] * (b[2] + b[4]))
                        + u * Sum(dense, LAMBDA b : IF b[7] = 1 THEN (b[2] * (b[4] + 1)) \div 2 ELSE b[2] * b[4])
Compression(N, total, g, u) ==
    LET p == total * u IN   \* total * u^2 coefficients against g * u
    IF g = 0 THEN {}
    ELSE Clause("compression ratio", RatioIs(N.Compression_ratio, p, g, 1))
         \cup Clause("space saving", IF g <= p THEN Near(N.Space_saving, Dec(p - g, p, 1)) /\ (N.Space_saving[1] = 1 \/ N.Space_saving[3] + N.Space_saving[4] = 0)
                                     ELSE N.Space_saving[1] = -1 /\ Near(N.Space_saving, Dec(g - p, p, 1)))

Init == i = 1 /\ mat = <<>>
Step(op) == i <= LogLen /\ E.op = op /\ i' = i + 1
Case == Step("case") /\ mat' = <<>>
\* the blocks of one part of a matrix keep the depth they have in the whole matrix
Gap(e) == IF Len(e.nodes) = 1 THEN 0 ELSE e.nodes[2][9] - 1
Matrix == /\ Step("matrix") /\ mat' = E
          /\ Report(i, E, Clause("depths of the blocks", /\ E.nodes[1][9] = 0 /\ (IF E.part THEN Gap(E) >= 0 ELSE Gap(E) = 0)
                                                        /\ \A k \in 2..Len(E.nodes) : E.nodes[k][9] = E.nodes[k][8] + Gap(E)))
Table(e) == Clause("the printed table differs from the reported values", e.printed = e.map)
            \cup Clause("the stream's formatting is not restored", e.before = e.after)
Information ==
    /\ Step("information") /\ UNCHANGED mat
    /\ LET N == E.num dense == Of(mat.nodes, 1) lr == Of(mat.nodes, 2) u == mat.unit IN
       Report(i, E, Table(E) \cup Figures(N, dense, lr, u)
                    \cup Clause("number of rows", SmallIs(N.Target_size, mat.nr, u))
                    \cup Clause("number of columns", SmallIs(N.Source_size, mat.nc, u))
                    \cup Clause("number of threads", IntIs(N.Number_of_threads, E.threads))
                    \cup Compression(N, mat.nr * mat.nc, Stored(dense, lr, u), u))
MicroIs(x, v) == x[1] = 1 /\ x[2] = 0 /\ x[3] = v \div M6 /\ x[4] = v % M6
Parameters ==
    /\ Step("parameters") /\ UNCHANGED mat
    /\ LET N == E.num IN
       Report(i, E, Table(E)
                    \cup Clause("eta", MicroIs(N.Eta, mat.eta)) \cup Clause("epsilon", MicroIs(N.Epsilon, mat.eps))
                    \cup Clause("least target depth", IntIs(N.MinTargetDepth, mat.mint))
                    \cup Clause("least source depth", IntIs(N.MinSourceDepth, mat.mins))
                    \cup Clause("target cluster size", IntIs(N.MinClusterSizeTarget, mat.mcst))
                    \cup Clause("source cluster size", IntIs(N.MinClusterSizeSource, mat.mcss))
                    \cup Clause("target cluster depths", IntIs(N.MinClusterDepthTarget, mat.td[1]) /\ IntIs(N.MaxClusterDepthTarget, mat.td[2]))
                    \cup Clause("source cluster depths", IntIs(N.MinClusterDepthSource, mat.sd[1]) /\ IntIs(N.MaxClusterDepthSource, mat.sd[2])))
\* the file of a set of blocks: one line per block, relative to the block the file is about
File(f, to, ts, so, ss, blocks) ==
    LET want == {<<b[1] - to, b[2], b[3] - so, b[4], b[6]>> : b \in blocks} IN
    Clause("no file", f.exists)
    \cup Clause("header", f.head = <<ts, ss>>)
    \cup Clause("lines of the file", {f.rows[k] : k \in 1..Len(f.rows)} = want /\ Len(f.rows) = Cardinality(want))
Under(b, e) == b[1] >= e.to /\ b[1] + b[2] <= e.to + e.ts /\ b[3] >= e.so /\ b[3] + b[4] <= e.so + e.ss
Leaves == /\ Step("leaves") /\ UNCHANGED mat
          /\ Report(i, E, File(E, E.to, E.ts, E.so, E.ss, {mat.nodes[k] : k \in {x \in 1..Len(mat.nodes) : mat.nodes[x][5] > 0 /\ Under(mat.nodes[x], E)}}))
Levels == /\ Step("levels") /\ UNCHANGED mat
          /\ Report(i, E, UNION {File(E.files[p], mat.to, mat.nr, mat.so, mat.nc, {mat.nodes[k] : k \in {x \in 1..Len(mat.nodes) : mat.nodes[x][9] = E.files[p].depth}}) : p \in 1..Len(E.files)})

(**************************** several processes *****************************)
All(e, kind) == FoldLeft(LAMBDA acc, p : acc \o Of(p.nodes, kind), <<>>, e.parts)
Ordered(a, b) == a[2] < b[2] \/ (a[2] = b[2] /\ (a[3] < b[3] \/ (a[3] = b[3] /\ a[4] <= b[4] + 1)))
Timing(N, k) == Ordered(N[k \o "_min"], N[k \o "_mean"]) /\ Ordered(N[k \o "_mean"], N[k \o "_max"]) /\ N[k \o "_min"][1] = 1
Distributed ==
    /\ Step("distributed") /\ UNCHANGED mat
    /\ LET N == E.num dense == All(E, 1) lr == All(E, 2) u == E.unit np == Len(E.parts)
           Sizes(F(_), w, what) ==
               Clause("largest number of " \o what, SmallIs(N[w \o "_max"], Most(E.parts, F), u))
               \cup Clause("smallest number of " \o what, SmallIs(N[w \o "_min"], Least(E.parts, F), u))
               \cup Clause("mean number of " \o what, RatioIs(N[w \o "_mean"], Sum(E.parts, F) * u, np, 1))
       IN Report(i, E, Table(E) \cup Figures(N, dense, lr, u)
                       \cup Sizes(LAMBDA p : p.nr, "Target_size", "rows") \cup Sizes(LAMBDA p : p.nc, "Source_size", "columns")
                       \cup Compression(N, Sum(E.parts, LAMBDA p : p.nr * p.nc), Stored(dense, lr, u), u)
                       \cup Clause("number of processes", IntIs(N.Number_of_MPI_tasks, np))
                       \cup Clause("number of threads", IntIs(N.Number_of_threads_per_tasks, E.threads) /\ IntIs(N.Number_of_procs, np * E.threads))
                       \cup Clause("number of refused compressions", IntIs(N.Number_of_false_positive, Sum(E.parts, LAMBDA p : p.fp)))
                       \cup Clause("timings", Timing(N, "Block_tree_walltime") /\ Timing(N, "Blocks_computation_walltime"))
                       \cup Clause("another process reported too", E.others = 0))
Stop == i = LogLen + 1 /\ Finished(i - 1) /\ i' = i + 1 /\ UNCHANGED mat
Next == Case \/ Matrix \/ Information \/ Parameters \/ Leaves \/ Levels \/ Distributed \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
