---------------------------- MODULE ClusterTree -----------------------------
(***************************************************************************)
(* The construction of a cluster tree as a state machine.                  *)
(*                                                                         *)
(* A tree is a sequence of nodes (node 1 is the root), a node is a record  *)
(*   [parent, depth, rank, off, size, counter, kids]                       *)
(* kids is the sequence of its children's positions in the sequence.       *)
(* rank = -1 above the partition, otherwise the part the node belongs to.  *)
(* The only action is to split a childless node into consecutive pieces.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Root(N) == [parent |-> 0, depth |-> 0, rank |-> -1, off |-> 0, size |-> N, counter |-> 0, kids |-> <<>>]

IsLeaf(n) == Len(n.kids) = 0
Parts(t) == {k \in 1..Len(t) : t[k].rank >= 0 /\ (t[k].parent = 0 \/ t[t[k].parent].rank < 0)}
NParts(t) == Cardinality(Parts(t))

\* offsets of consecutive pieces
RECURSIVE OffsetsFrom(_, _)
OffsetsFrom(o, sizes) == IF sizes = <<>> THEN <<>> ELSE <<o>> \o OffsetsFrom(o + Head(sizes), Tail(sizes))


\* the sizes of the pieces: equal counts, the last one taking the rest ...
RegularSizes(n, c) == [p \in 1..c |-> IF p < c THEN n \div c ELSE n - (c - 1) * (n \div c)]
\* ... or equal lengths: a piece ends where the next point is more than 1/c of the whole extent away from its first point
\* (xs: sorted positions along the direction); <<>> where the points run out
RECURSIVE Slices(_, _, _, _)
Slices(xs, from, left, c) ==
    IF left = 1 THEN <<Len(xs) - from + 1>>
    ELSE LET far == {a \in from..Len(xs) : c * (xs[a] - xs[from]) > xs[Len(xs)] - xs[1]} IN
         IF far = {} THEN <<>>
         ELSE LET a == CHOOSE x \in far : \A y \in far : x <= y
                  rest == Slices(xs, a, left - 1, c)
              IN IF rest = <<>> THEN <<>> ELSE <<a - from>> \o rest
GeometricSizes(xs, c, mcs) ==
    LET s == Slices(xs, 1, c, c) IN
    IF s # <<>> /\ \A p \in 1..c : s[p] > mcs THEN s ELSE RegularSizes(Len(xs), c)

(* Guard of a split: cfg = [mcs, nch, parts, given], sizes = sequence of piece sizes, part = TRUE when the
   pieces are parts. *)
SplitEnabled(t, cfg, k, sizes, part) ==
    /\ k \in 1..Len(t)
    /\ IsLeaf(t[k])
    /\ Len(sizes) >= 1
    /\ \A p \in 1..Len(sizes) : sizes[p] >= 1
    /\ FoldLeft(LAMBDA a, b : a + b, 0, sizes) = t[k].size
    /\ part => t[k].rank < 0
    /\ (Len(cfg.given) > 0 /\ k = 1) => part /\ Len(sizes) = Len(cfg.given)
                                        /\ \A p \in 1..Len(sizes) : sizes[p] = cfg.given[p][2]
    \* pieces respect the minimum size unless the caller imposed them
    /\ ~(Len(cfg.given) > 0 /\ k = 1) => \A p \in 1..Len(sizes) : sizes[p] >= cfg.mcs
    \* inside a part, the configured number of children
    /\ t[k].rank >= 0 => Len(sizes) = cfg.nch

Split(t, cfg, k, sizes, part) ==
    LET offs == OffsetsFrom(t[k].off, sizes)
        base == NParts(t)
        n0 == Len(t)
        new == [p \in 1..Len(sizes) |->
                  [parent |-> k, depth |-> t[k].depth + 1,
                   rank |-> IF part THEN base + p - 1 ELSE t[k].rank,
                   off |-> offs[p], size |-> sizes[p], counter |-> -1, kids |-> <<>>]]
    IN [j \in 1..(n0 + Len(sizes)) |->
          IF j > n0 THEN new[j - n0]
          ELSE IF j = k THEN [t[k] EXCEPT !.kids = [p \in 1..Len(sizes) |-> n0 + p]] ELSE t[j]]

\* a node that the rules oblige to split further (pieces of the regular cut would be above the minimum)
MustSplit(t, cfg, k) == IsLeaf(t[k]) /\ t[k].rank >= 0 /\ (t[k].size \div cfg.nch) > cfg.mcs

(***************************************************************************)
(* Guarantees (C01, C03), stated on a finished tree with permutation perm. *)
(***************************************************************************)
KidsTile(t, k) ==
    LET ks == t[k].kids IN
    ks = <<>> \/
    /\ t[ks[1]].off = t[k].off
    /\ \A p \in 1..(Len(ks) - 1) : t[ks[p + 1]].off = t[ks[p]].off + t[ks[p]].size
    /\ t[ks[Len(ks)]].off + t[ks[Len(ks)]].size = t[k].off + t[k].size
    /\ \A p \in 1..Len(ks) : /\ t[ks[p]].size >= 1
                             /\ t[ks[p]].depth = t[k].depth + 1
                             /\ t[ks[p]].parent = k
Hierarchical(t) == \A k \in 1..Len(t) : KidsTile(t, k)
LeavesCoverOnce(t) ==
    \A x \in t[1].off..(t[1].off + t[1].size - 1) :
        Cardinality({k \in 1..Len(t) : IsLeaf(t[k]) /\ t[k].off <= x /\ x < t[k].off + t[k].size}) = 1
LevelNumbering(t) == \A a, b \in 1..Len(t) : (a # b /\ t[a].depth = t[b].depth) =>
                        /\ t[a].counter # t[b].counter
                        /\ (t[a].off < t[b].off => t[a].counter < t[b].counter)
LeafDepths(t) == {t[k].depth : k \in {j \in 1..Len(t) : IsLeaf(t[j])}}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

PartSeq(t) == \* node of part p (0-based) at position p+1
    [p \in 1..NParts(t) |-> CHOOSE k \in Parts(t) : t[k].rank = p - 1]
PartitionRespected(t, cfg) ==
    /\ NParts(t) = cfg.parts
    /\ {t[k].rank : k \in Parts(t)} = 0..(cfg.parts - 1)
    /\ LET ps == PartSeq(t) IN
       /\ t[ps[1]].off = 0
       /\ \A p \in 1..(Len(ps) - 1) : t[ps[p + 1]].off = t[ps[p]].off + t[ps[p]].size
       /\ t[ps[Len(ps)]].off + t[ps[Len(ps)]].size = t[1].size
       /\ \A p \in 1..Len(ps) : t[ps[p]].depth = t[ps[1]].depth
       /\ Len(cfg.given) > 0 => \A p \in 1..Len(ps) : <<t[ps[p]].off, t[ps[p]].size>> = <<cfg.given[p][1], cfg.given[p][2]>>
RanksInherited(t) == \A k \in 2..Len(t) : LET u == t[t[k].parent] IN u.rank >= 0 => t[k].rank = u.rank
LeavesInParts(t) == \A k \in 1..Len(t) : IsLeaf(t[k]) => t[k].rank >= 0

\* enough points for the requested partition under regular cuts (integer logarithm)
RECURSIVE ILog(_, _)
ILog(x, b) == IF x < b THEN 0 ELSE 1 + ILog(x \div b, b)
RECURSIVE IPow(_, _)
IPow(b, k) == IF k = 0 THEN 1 ELSE b * IPow(b, k - 1)
RECURSIVE Cut(_, _, _)
Cut(s, b, levels) == IF levels = 0 THEN s ELSE Cut(s \div b, b, levels - 1)
Feasible(N, cfg) ==
    IF cfg.parts < cfg.nch THEN N \div cfg.parts > cfg.mcs
    ELSE LET L == ILog(cfg.parts, cfg.nch)
             extra == cfg.parts - IPow(cfg.nch, L)
         IN (Cut(N, cfg.nch, L - 1) \div (cfg.nch + extra)) > cfg.mcs
=============================================================================
