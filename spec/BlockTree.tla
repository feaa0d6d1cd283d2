----------------------------- MODULE BlockTree ------------------------------
(***************************************************************************)
(* Construction of the block structure of a hierarchical matrix over a     *)
(* target tree TT and a source tree TS (sequences of cluster nodes         *)
(* [parent, depth, rank, off, size, kids]).                                *)
(* A block is a pair of node positions <<a, b>>.  One action visits a      *)
(* block: it is compressed, kept dense, or subdivided into a grid of       *)
(* (descendants of a) x (descendants of b).                                *)
(* cfg = [sym, uplo, tp, sp, mint, mins, cons]: symmetry kind, triangle,   *)
(* target part (-1: all), part in which symmetry is exploited (-1: all),   *)
(* minimal depths, tree consistency.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LeafNode(n) == Len(n.kids) = 0
EndOf(n) == n.off + n.size
PartNodes(T) == {k \in 1..Len(T) : T[k].rank >= 0 /\ (T[k].parent = 0 \/ T[T[k].parent].rank < 0)}
PartNode(T, p) == CHOOSE k \in PartNodes(T) : T[k].rank = p
Within(x, y) == y.off <= x.off /\ EndOf(x) <= EndOf(y)

\* a block strictly inside the triangle that is not stored
Removed(cfg, TT, TS, t, s) ==
    /\ cfg.sym # "N"
    /\ IF cfg.uplo = "U" THEN t.off >= EndOf(s) ELSE s.off >= EndOf(t)
    /\ cfg.sp >= 0 =>
         LET pt == TT[PartNode(TT, cfg.sp)] ps == TS[PartNode(TS, cfg.sp)] IN
         Within(t, pt) /\ Within(s, ps)

InTarget(cfg, t) == cfg.tp = -1 \/ t.rank = cfg.tp
Kept(cfg, TT, TS, t, s) == (InTarget(cfg, t) \/ t.rank < 0) /\ ~Removed(cfg, TT, TS, t, s)

Compressible(cfg, TT, TS, t, s, adm) ==
    /\ adm
    /\ InTarget(cfg, t)
    /\ ~Removed(cfg, TT, TS, t, s)
    /\ t.depth >= cfg.mint /\ s.depth >= cfg.mins
    /\ t.rank >= 0
    /\ cfg.cons => s.rank >= 0

\* ways to cut one side of a block: not at all, into the children, into the parts below
Cuts(T, k) == {{k}}
              \cup (IF LeafNode(T[k]) THEN {} ELSE {{T[k].kids[p] : p \in 1..Len(T[k].kids)}})
              \cup (IF T[k].rank < 0 /\ PartNodes(T) # {} THEN {{q \in PartNodes(T) : Within(T[q], T[k])}} ELSE {})
Grid(cfg, TT, TS, ts, ss) == {p \in ts \X ss : Kept(cfg, TT, TS, TT[p[1]], TS[p[2]])}
\* subdivisions of block <<a,b>>; each one makes progress
Subdivisions(cfg, TT, TS, a, b) ==
    {Grid(cfg, TT, TS, x[1], x[2]) : x \in {y \in Cuts(TT, a) \X Cuts(TS, b) : y # <<{a}, {b}>>}}

(***************************************************************************)
(* Tiling, on rectangles [r0, r1, c0, c1] (half open).                     *)
(***************************************************************************)
Rect(t, s) == [r0 |-> t.off, r1 |-> EndOf(t), c0 |-> s.off, c1 |-> EndOf(s)]
Mirror(r) == [r0 |-> r.c0, r1 |-> r.c1, c0 |-> r.r0, c1 |-> r.r1]
Area(r) == (r.r1 - r.r0) * (r.c1 - r.c0)
Disjoint(x, y) == x.r1 <= y.r0 \/ y.r1 <= x.r0 \/ x.c1 <= y.c0 \/ y.c1 <= x.c0
RECURSIVE AreaSum(_, _)
AreaSum(rs, k) == IF k = 0 THEN 0 ELSE Area(rs[k]) + AreaSum(rs, k - 1)
PairwiseDisjoint(rs) == \A x, y \in 1..Len(rs) : x < y => Disjoint(rs[x], rs[y])
InsideRows(rs, lo, hi, n) == \A x \in 1..Len(rs) : rs[x].r0 >= lo /\ rs[x].r1 <= hi /\ rs[x].c0 >= 0 /\ rs[x].c1 <= n
Tiles(rs, lo, hi, n) == InsideRows(rs, lo, hi, n) /\ PairwiseDisjoint(rs) /\ AreaSum(rs, Len(rs)) = (hi - lo) * n
OnDiagonal(t, s) == t.off = s.off
CoversPair(r, i, j) == r.r0 <= i /\ i < r.r1 /\ r.c0 <= j /\ j < r.c1
=============================================================================
