--------------------------- MODULE MCClusterTree ----------------------------
(* Exhaustive exploration of all cluster trees that the split rules allow on few points: the local rules
   (consecutive pieces, rank inheritance, part numbering left to right) imply the global guarantees. *)
EXTENDS ClusterTree
CONSTANTS MaxN, MaxNodes
VARIABLES tree, cfg, todo
vars == <<tree, cfg, todo>>

Compositions(s) == \* sequences of 1..3 positive numbers with sum s
    {<<s>>} \cup {<<a, s - a>> : a \in 1..(s - 1)}
            \cup {<<x[1], x[2], s - x[1] - x[2]>> : x \in {y \in (1..s) \X (1..s) : y[1] + y[2] < s}}

Givens(s) == {<<>>} \cup {[p \in 1..Len(c) |-> <<OffsetsFrom(0, c)[p], c[p]>>] : c \in Compositions(s)}
\* pd: depth of the partition; two levels make nch * nch parts
Init == \E n \in 2..MaxN, nch \in 2..3, parts \in 1..4, pd \in 1..2 : \E g \in Givens(n) :
          /\ Len(g) > 0 => parts = Len(g) /\ pd = 1
          /\ pd = 1 => parts <= 3
          /\ pd = 2 => parts = nch * nch
          /\ cfg = [mcs |-> 1, nch |-> nch, parts |-> parts, given |-> g, pd |-> pd]
          /\ tree = <<Root(n)>>
          /\ todo = <<1>>      \* breadth-first, left to right
Next ==
    /\ todo # <<>>
    /\ LET k == Head(todo) IN
       \/ /\ ~(tree[k].rank < 0)             \* leave it as a leaf
          /\ todo' = Tail(todo)
          /\ UNCHANGED <<tree, cfg>>
       \/ \E c \in Compositions(tree[k].size), part \in BOOLEAN :
            /\ Len(tree) + Len(c) <= MaxNodes
            /\ SplitEnabled(tree, cfg, k, c, part)
            /\ tree[k].rank < 0 => (part <=> tree[k].depth = cfg.pd - 1)
            /\ part => Len(c) = IF cfg.pd = 1 THEN cfg.parts ELSE cfg.nch
            /\ (tree[k].rank < 0 /\ ~part) => Len(c) = cfg.nch
            /\ tree' = Split(tree, cfg, k, c, part)
            /\ todo' = Tail(todo) \o [p \in 1..Len(c) |-> Len(tree) + p]
            /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars

Done == todo = <<>>
TypeOK == \A k \in 1..Len(tree) : tree[k].size >= 1 /\ tree[k].off >= 0
InvHier == Hierarchical(tree)
InvCover == LeavesCoverOnce(tree)
InvRanks == RanksInherited(tree)
InvDone == Done => LeavesInParts(tree) /\ PartitionRespected(tree, cfg)
=============================================================================
