---------------------------- MODULE MCBlockTree -----------------------------
(* All block structures the rules of BlockTree allow over small trees, for every admissibility answer. *)
EXTENDS BlockTree, SequencesExt
CONSTANTS Full    \* FALSE: fewer trees
N1(p, d, r, o, s, k) == [parent |-> p, depth |-> d, rank |-> r, off |-> o, size |-> s, kids |-> k]
\* two parts, the first one cut once more
TreeA == << N1(0, 0, -1, 0, 4, <<2, 3>>), N1(1, 1, 0, 0, 2, <<4, 5>>), N1(1, 1, 1, 2, 2, <<>>),
            N1(2, 2, 0, 0, 1, <<>>), N1(2, 2, 0, 1, 1, <<>>) >>
\* one part only
TreeB == << N1(0, 0, -1, 0, 3, <<2>>), N1(1, 1, 0, 0, 3, <<3, 4>>), N1(2, 2, 0, 0, 1, <<>>), N1(2, 2, 0, 1, 2, <<>>) >>
\* parts at depth two, uneven
TreeC == << N1(0, 0, -1, 0, 4, <<2, 3>>), N1(1, 1, -1, 0, 2, <<4, 5>>), N1(1, 1, -1, 2, 2, <<6, 7>>),
            N1(2, 2, 0, 0, 1, <<>>), N1(2, 2, 1, 1, 1, <<>>), N1(3, 2, 2, 2, 1, <<>>), N1(3, 2, 3, 3, 1, <<>>) >>
\* two parts, both cut
TreeD == << N1(0, 0, -1, 0, 5, <<2, 3>>), N1(1, 1, 0, 0, 3, <<4, 5>>), N1(1, 1, 1, 3, 2, <<6, 7>>),
            N1(2, 2, 0, 0, 2, <<>>), N1(2, 2, 0, 2, 1, <<>>), N1(3, 2, 1, 3, 1, <<>>), N1(3, 2, 1, 4, 1, <<>>) >>
Trees == IF Full THEN {TreeA, TreeB, TreeC, TreeD} ELSE {TreeA, TreeB, TreeC}

VARIABLES TT, TS, cfg, todo, leaves
vars == <<TT, TS, cfg, todo, leaves>>
Cfgs == {c \in [sym : {"N", "S"}, uplo : {"N", "L", "U"}, tp : {-1, 0, 1}, sp : {-1, 0, 1}, mint : {0, 2}, mins : {0}, cons : BOOLEAN] :
            /\ (c.sym = "N") <=> (c.uplo = "N")
            /\ c.sym = "N" => c.sp = -1
            /\ c.sym # "N" => c.cons /\ c.sp = c.tp}
Init == /\ TT \in Trees /\ TS \in Trees /\ cfg \in Cfgs
        /\ cfg.sym # "N" => TT = TS
        /\ cfg.tp >= 0 => cfg.tp < Cardinality(PartNodes(TT))
        /\ todo = <<<<1, 1>>>> /\ leaves = <<>>
Visit ==
    /\ todo # <<>>
    /\ LET a == Head(todo)[1] b == Head(todo)[2]
           t == TT[a] s == TS[b] IN
       \E adm \in (IF LeafNode(t) /\ LeafNode(s) THEN {FALSE} ELSE BOOLEAN) :
         IF Compressible(cfg, TT, TS, t, s, adm) \/ (LeafNode(t) /\ LeafNode(s))
         THEN leaves' = Append(leaves, <<a, b>>) /\ todo' = Tail(todo)
         ELSE \E g \in Subdivisions(cfg, TT, TS, a, b) :
                /\ leaves' = leaves
                /\ todo' = SetToSeq(g) \o Tail(todo)
    /\ UNCHANGED <<TT, TS, cfg>>
\* with one-triangle storage both sides of a diagonal block are cut alike (same tree)
VisitSym ==
    /\ todo # <<>>
    /\ LET a == Head(todo)[1] b == Head(todo)[2]
           t == TT[a] s == TS[b] IN
       \E adm \in (IF LeafNode(t) /\ LeafNode(s) THEN {FALSE} ELSE BOOLEAN) :
         IF Compressible(cfg, TT, TS, t, s, adm) \/ (LeafNode(t) /\ LeafNode(s))
         THEN leaves' = Append(leaves, <<a, b>>) /\ todo' = Tail(todo)
         ELSE \E g \in {Grid(cfg, TT, TS, x[1], x[2]) : x \in {y \in Cuts(TT, a) \X Cuts(TS, b) :
                            /\ y # <<{a}, {b}>>
                            /\ (Within(t, s) \/ Within(s, t)) => (a = b => y[1] = y[2])
                            /\ (Within(t, s) /\ t # s) => y[1] = {a}
                            /\ (Within(s, t) /\ t # s) => y[2] = {b}}} :
                /\ leaves' = leaves
                /\ todo' = SetToSeq(g) \o Tail(todo)
    /\ UNCHANGED <<TT, TS, cfg>>
Next == IF cfg.sym = "N" THEN Visit ELSE VisitSym
Spec == Init /\ [][Next]_vars

Done == todo = <<>>
Rects == [x \in 1..Len(leaves) |-> Rect(TT[leaves[x][1]], TS[leaves[x][2]])]
RowLo == IF cfg.tp = -1 THEN 0 ELSE TT[PartNode(TT, cfg.tp)].off
RowHi == IF cfg.tp = -1 THEN TT[1].size ELSE EndOf(TT[PartNode(TT, cfg.tp)])
\* leaves that stand for a second block by symmetry
Mirrored == SelectSeq(leaves, LAMBDA p : /\ cfg.sym # "N"
                                         /\ ~OnDiagonal(TT[p[1]], TS[p[2]])
                                         /\ cfg.sp >= 0 => Within(TS[p[2]], TS[PartNode(TS, cfg.sp)]))
MRects == [x \in 1..Len(Mirrored) |-> Mirror(Rect(TT[Mirrored[x][1]], TS[Mirrored[x][2]]))]
InvDisjoint == PairwiseDisjoint(Rects)
InvTiles == Done => Tiles(Rects \o MRects, RowLo, RowHi, TS[1].size)
InvTriangle == cfg.sym # "N" => \A x \in 1..Len(leaves) : ~Removed(cfg, TT, TS, TT[leaves[x][1]], TS[leaves[x][2]])
=============================================================================
