------------------------------ MODULE TrBlock -------------------------------
(***************************************************************************)
(* Acceptor for traces of harness/d_block.cpp.  Each "build" is replayed   *)
(* block by block (breadth first): every inner block must be a subdivision *)
(* BlockTree allows, every leaf must be what Compressible says; then the   *)
(* finished structure, the generator calls and the stored coefficients are *)
(* compared with the guarantees of the property under check.               *)
(***************************************************************************)
EXTENDS BlockTree, TraceBase
Prop == IOEnv.VPROP
VARIABLES i,      \* next event
          w,      \* next block of the current build (0: between builds)
          TT, TS, \* trees
          GC,     \* the operator in cluster numbering
          bld,    \* the build being examined
          prs     \* stored rectangles of the per-part builds so far
vars == <<i, w, TT, TS, GC, bld, prs>>
E == Log[i]

KidsIn(par, k) == LET ks == {j \in 1..Len(par) : par[j] = k} IN
                  IF ks = {} THEN <<>> ELSE LET lo == CHOOSE x \in ks : \A y \in ks : x <= y
                                            IN [p \in 1..Cardinality(ks) |-> lo + p - 1]
TreeOf(f) == TLCEval([k \in 1..Len(f.off) |->
                 [parent |-> f.parent[k], depth |-> f.depth[k], rank |-> f.rank[k], off |-> f.off[k], size |-> f.size[k],
                  r |-> f.r[k], c |-> [d \in 1..f.dim |-> f.c[(k - 1) * f.dim + d]], kids |-> KidsIn(f.parent, k)]])
CfgOf(e) == [sym |-> e.sym, uplo |-> e.uplo, tp |-> e.tp, sp |-> e.sp, mint |-> e.mint, mins |-> e.mins, cons |-> e.cons]

NB(e) == Len(e.t)
TN(e, k) == TT[e.t[k]]
SN(e, k) == TS[e.s[k]]
\* the root of a per-part build stands for all rows of the part
Restricted(e) == e.tp >= 0 /\ TT[1].rank # e.tp
IsLeaf(e, k) == e.nk[k] = 0
Comp(e, k) == Compressible(CfgOf(e), TT, TS, TN(e, k), SN(e, k), e.adm[k] = 1)
Asked(e, k) == {a \in 1..Len(e.asked) : e.asked[a][1] = e.t[k] /\ e.asked[a][2] = e.s[k]}
RefusedLeaf(e, k) == \E a \in Asked(e, k) : e.asked[a][5] = 1
LeafSet(e) == {k \in 1..NB(e) : IsLeaf(e, k) /\ ~(k = 1 /\ Restricted(e))}

\* the default admissibility rule, in units of 1/50 with a margin for rounding
Dist2(t, s) == FoldLeft(LAMBDA a, d : LET u == t.c[d] - s.c[d] IN a + u * u, 0, [d \in 1..Len(t.c) |-> d])
RuleOK(t, s, e2, ans) ==
    LET m == IF t.r < s.r THEN t.r ELSE s.r
        K == (t.r + s.r) * e2 + 4 * m
        D == Dist2(t, s) * e2 * e2
        hi == K + 5 * e2
        lo == K - 5 * e2 IN
    IF t.r > 1800 \/ s.r > 1800 \/ Len(t.c) # Len(s.c) \/ e2 > 200 THEN TRUE
    ELSE IF D >= 2000000000 THEN TRUE
    \* squares are only formed where they fit in TLC's integers
    ELSE IF hi < 46000 /\ D > hi * hi THEN ans = 1
    ELSE IF lo >= 46000 \/ (lo > 0 /\ D < lo * lo) THEN ans = 0 ELSE TRUE

(***************************** per block ***********************************)
BlockOK(e, k) ==
    /\ e.t[k] >= 1 /\ e.s[k] >= 1
    /\ IF IsLeaf(e, k)
       THEN e.kind[k] \in {1, 2}
       ELSE LET ks == KidsIn(e.parent, k)
                kidset == {<<e.t[ks[p]], e.s[ks[p]]>> : p \in 1..Len(ks)} IN
            /\ e.kind[k] = 0
            /\ Len(ks) = e.nk[k]
            /\ \A p \in 1..Len(ks) : e.t[ks[p]] >= 1 /\ e.s[ks[p]] >= 1
            /\ Cardinality(kidset) = Len(ks)
            /\ IF k = 1 /\ Restricted(e) THEN e.t[1] = PartNode(TT, e.tp) /\ e.s[1] = 1
                                         ELSE kidset \in Subdivisions(CfgOf(e), TT, TS, e.t[k], e.s[k])

DecisionOK(e, k) ==
    IF k = 1 /\ Restricted(e) THEN TRUE
    ELSE IF ~IsLeaf(e, k) THEN ~Comp(e, k)
    ELSE IF e.kind[k] = 2 \/ RefusedLeaf(e, k) THEN Comp(e, k)
    ELSE ~Comp(e, k) /\ LeafNode(TN(e, k)) /\ LeafNode(SN(e, k))

(***************************** whole structure *****************************)
Rects(e) == LET ls == SetToSortSeq(LeafSet(e), LAMBDA x, y : x < y) IN [p \in 1..Len(ls) |-> Rect(TN(e, ls[p]), SN(e, ls[p]))]
InMirrorRegion(e, k) == e.tp >= 0 => Within(SN(e, k), TS[PartNode(TS, e.tp)]) /\ Within(TN(e, k), TT[PartNode(TT, e.tp)])
Mirrored(e) == {k \in LeafSet(e) : e.sym # "N" /\ ~OnDiagonal(TN(e, k), SN(e, k)) /\ InMirrorRegion(e, k)}
MRects(e) == LET ls == SetToSortSeq(Mirrored(e), LAMBDA x, y : x < y) IN [p \in 1..Len(ls) |-> Mirror(Rect(TN(e, ls[p]), SN(e, ls[p])))]
RowLo(e) == IF e.tp = -1 THEN 0 ELSE TT[PartNode(TT, e.tp)].off
RowHi(e) == IF e.tp = -1 THEN TT[1].size ELSE EndOf(TT[PartNode(TT, e.tp)])
SeqSet(s) == {s[k] : k \in 1..Len(s)}
Tiling(e) ==
    IF e.sym = "N" \/ e.tp = e.sp
    THEN Clause("tiling", Tiles(Rects(e) \o MRects(e), RowLo(e), RowHi(e), TS[1].size))
    ELSE Clause("overlap", PairwiseDisjoint(Rects(e)) /\ InsideRows(Rects(e), RowLo(e), RowHi(e), TS[1].size))
Structure(e) ==
    Tiling(e)
    \cup Clause("triangle", e.sym = "N" \/ \A k \in LeafSet(e) : ~Removed(CfgOf(e), TT, TS, TN(e, k), SN(e, k)))
    \cup Clause("leaf list", Len(e.l1) = Cardinality(LeafSet(e)) + (IF IsLeaf(e, 1) /\ Restricted(e) THEN 1 ELSE 0)
                             /\ LeafSet(e) \subseteq SeqSet(e.l1) /\ Cardinality(SeqSet(e.l1)) = Len(e.l1))
    \cup Clause("mirror list", Len(e.l2) = Cardinality(Mirrored(e)) /\ Mirrored(e) = SeqSet(e.l2))
    \cup Clause("symmetry marks", \A k \in 1..NB(e) :
            LET same == TN(e, k).off = SN(e, k).off /\ TN(e, k).size = SN(e, k).size IN
            e.flags[k][1] = (IF same THEN e.sym ELSE "N") /\ e.flags[k][2] = (IF same THEN e.uplo ELSE "N"))

LeafPos(e, k) == CHOOSE p \in 1..Len(e.leaves) : e.leaves[p] = k
ContentOK(e, k) == LET t == TN(e, k) s == SN(e, k) c == e.content[LeafPos(e, k)] IN
                   Shape(c, t.size, s.size) /\ MatEq(c, SubMat(GC, t.off, t.size, s.off, s.size))
Contents(e, ks) == \A k \in ks : ContentOK(e, k)
DenseKind(e) == {k \in LeafSet(e) : e.kind[k] = 1}
PlainDense(e) == {k \in DenseKind(e) : ~RefusedLeaf(e, k)}

GenRangeOK(e) == \A g \in 1..Len(e.gens) : LET c == e.gens[g] IN
    c[5] >= 0 /\ c[6] >= 0 /\ (c[5] * c[6] > 0 => c[1] >= 0 /\ c[2] < TT[1].size /\ c[3] >= 0 /\ c[4] < TS[1].size /\ c[5] <= TT[1].size /\ c[6] <= TS[1].size)
AskedOnce(e) == /\ \A k \in LeafSet(e) : Cardinality(Asked(e, k)) = (IF Comp(e, k) THEN 1 ELSE 0)
                /\ Len(e.asked) = Cardinality({k \in LeafSet(e) : Comp(e, k)})
AskedHow(e) == \A a \in 1..Len(e.asked) : e.asked[a][3] = e.eps /\ e.asked[a][4] = e.reqrank
DenseCall(e, k) == <<TN(e, k).off, TN(e, k).size, SN(e, k).off, SN(e, k).size>>
DenseCalls(e) == IF ~e.db THEN Len(e.dense) = 0
                 ELSE /\ Len(e.dense) = Cardinality(PlainDense(e))
                      /\ {e.dense[x] : x \in 1..Len(e.dense)} = {DenseCall(e, k) : k \in PlainDense(e)}
Refusals(e) == Cardinality({a \in 1..Len(e.asked) : e.asked[a][5] = 1})

FinalClauses(e) ==
    CASE Prop = "B01" -> Structure(e)
      [] Prop = "B02" -> Clause("default rule", e.mode # 0 \/ \A k \in 1..NB(e) : RuleOK(TN(e, k), SN(e, k), e.eta2, e.adm[k]))
      [] Prop = "B03" -> Tiling(e) \cup Clause("mirror list", Mirrored(e) = SeqSet(e.l2)) \cup Clause("contents", Contents(e, LeafSet(e)))
      [] Prop = "B04" -> Clause("range", GenRangeOK(e)) \cup Clause("compressor asked once per block", AskedOnce(e))
                         \cup Clause("tolerance or rank", AskedHow(e)) \cup Clause("dense blocks generator", DenseCalls(e))
                         \cup Clause("coefficients", Contents(e, DenseKind(e)))
      [] Prop = "B05" -> Clause("refused blocks", \A k \in LeafSet(e) : RefusedLeaf(e, k) => e.kind[k] = 1)
                         \cup Clause("kept blocks", \A k \in LeafSet(e) : (Asked(e, k) # {} /\ ~RefusedLeaf(e, k)) => e.kind[k] = 2)
                         \cup Clause("contents", Contents(e, LeafSet(e)))
                         \cup Clause("count", e.fp = Refusals(e))
      [] OTHER -> {}

(***************************** actions *************************************)
Init == i = 1 /\ w = 0 /\ TT = <<>> /\ TS = <<>> /\ GC = <<>> /\ bld = [ok |-> TRUE] /\ prs = <<>>
Trees == /\ w = 0 /\ i <= LogLen /\ E.op = "trees"
         /\ TT' = TreeOf(E.T) /\ TS' = TreeOf(E.S)
         /\ GC' = Gather(E.G, E.T.perm, E.S.perm)
         /\ prs' = <<>> /\ i' = i + 1 /\ UNCHANGED <<w, bld>>
Begin == /\ w = 0 /\ i <= LogLen /\ E.op = "build"
         /\ w' = 1 /\ bld' = [ok |-> TRUE]
         /\ UNCHANGED <<i, TT, TS, GC, prs>>
Visit == /\ w >= 1 /\ w <= NB(E)
         /\ LET ok == BlockOK(E, w) IN
            /\ bld' = [ok |-> bld.ok /\ ok]
            /\ IF ok THEN (Prop = "B02" => Report(i, E, Clause("block " \o ToString(w) \o " should not be treated like this", DecisionOK(E, w))))
               ELSE (Prop \in {"B01", "B02", "B03"} => Report(i, E, {"block " \o ToString(w) \o " is not subdivided in an allowed way"}))
         /\ w' = w + 1
         /\ UNCHANGED <<i, TT, TS, GC, prs>>
End == /\ w >= 1 /\ w = NB(E) + 1
       /\ IF \A k \in 1..NB(E) : E.t[k] >= 1 /\ E.s[k] >= 1
          THEN /\ Report(i, E, FinalClauses(E))
               /\ prs' = IF E.nth >= 100 THEN Append(prs, [e |-> i, rects |-> Rects(E), m |-> MRects(E), sym |-> E.sym, sp |-> E.sp]) ELSE prs
          ELSE /\ Report(i, E, {"a block is not a product of tree nodes"}) /\ prs' = prs
       /\ w' = 0 /\ i' = i + 1
       /\ UNCHANGED <<TT, TS, GC, bld>>
\* all per-part builds together
Assembled ==
       /\ w = 0 /\ i <= LogLen /\ E.op = "assembled"
       /\ LET all == FoldLeft(LAMBDA a, p : a \o p.rects, <<>>, prs)
              off == SelectSeq(all, LAMBDA r : r.r0 # r.c0)
              mir == IF Len(prs) = 0 \/ prs[1].sym = "N" THEN <<>>
                     ELSE IF prs[1].sp = -1 THEN [x \in 1..Len(off) |-> Mirror(off[x])]
                     ELSE FoldLeft(LAMBDA a, p : a \o p.m, <<>>, prs) IN
          Report(i, E, IF Prop \in {"B01", "B03"} THEN Clause("parts do not assemble", Len(prs) = E.np /\ Tiles(all \o mir, 0, TT[1].size, TS[1].size)) ELSE {})
       /\ i' = i + 1 /\ UNCHANGED <<w, TT, TS, GC, bld, prs>>
Stop == w = 0 /\ i = LogLen + 1 /\ Finished(i - 1) /\ i' = i + 1 /\ UNCHANGED <<w, TT, TS, GC, bld, prs>>
Next == Trees \/ Begin \/ Visit \/ End \/ Assembled \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
