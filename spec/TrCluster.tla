----------------------------- MODULE TrCluster ------------------------------
(***************************************************************************)
(* Acceptor for traces of harness/d_cluster.cpp.  A "tree" event is        *)
(* replayed as a behaviour of ClusterTree: Root, then one Split per inner  *)
(* node, each of which must be enabled; the finished tree must be the      *)
(* recorded one and satisfy the guarantees of the property under check.    *)
(***************************************************************************)
EXTENDS ClusterTree, TraceBase
Prop == IOEnv.VPROP
VARIABLES i,      \* next event
          w,      \* next node of the current tree to be examined (0: none)
          t,      \* the tree built so far by the specification
          cur,    \* the last "tree" event (the tree conversions and files refer to)
          ok      \* the current tree has been explained so far
vars == <<i, w, t, cur, ok>>
S == 500
E == Log[i]

CfgOf(e) == [mcs |-> e.mcs, nch |-> e.nch, parts |-> e.parts, given |-> e.given]
NN(e) == Len(e.off)
KidsOf(e, k) == LET ks == {j \in 1..NN(e) : e.parent[j] = k} IN
                IF ks = {} THEN <<>> ELSE LET lo == CHOOSE x \in ks : \A y \in ks : x <= y
                                          IN [p \in 1..Cardinality(ks) |-> lo + p - 1]
EvTree(e) == TLCEval([k \in 1..NN(e) |->
                 [parent |-> e.parent[k], depth |-> e.depth[k], rank |-> e.rank[k], off |-> e.off[k],
                  size |-> e.size[k], counter |-> e.counter[k], kids |-> KidsOf(e, k)]])
Same(a, b) == a.parent = b.parent /\ a.depth = b.depth /\ a.rank = b.rank /\ a.off = b.off /\ a.size = b.size /\ a.kids = b.kids

Expected(e) == \* a partition must exist
    IF Len(e.given) > 0 THEN TRUE
    ELSE ~e.err \/ (e.regular /\ Feasible(e.N, CfgOf(e)))

(***************************** clauses ************************************)
C01Final(e, T) ==
    LET m == e.eqm IN
       Clause("permutation", Len(e.perm) = e.N /\ IsPerm(e.perm))
    \cup Clause("root", T[1].off = 0 /\ T[1].size = e.N /\ T[1].depth = 0)
    \cup Clause("root lookup", e.rootptr)
    \cup Clause("rootflag", \A k \in 1..NN(e) : (e.root[k] = 1) <=> (k = 1))
    \cup Clause("tiling", Hierarchical(T))
    \cup Clause("leaves", LeavesCoverOnce(T))
    \cup Clause("counters", LevelNumbering(T))
    \cup Clause("depths", ~Expected(e) \/ e.err \/ (e.mind = MinOf(LeafDepths(T)) /\ e.maxd = MaxOf(LeafDepths(T))))
    \cup Clause("refined", e.err \/ \A k \in 1..NN(e) : ~MustSplit(T, CfgOf(e), k))
    \cup Clause("trees", "twin" \in DOMAIN e => e.twin = 0)
    \cup Clause("equality", \A a, b \in 1..m : (e.eq[(a - 1) * m + b] = 1) <=> (a = b))
    \cup Clause("containment", \A a, b \in 1..m : (e.ct[(a - 1) * m + b] = 1) <=>
                 (T[a].off <= T[b].off /\ T[b].off + T[b].size <= T[a].off + T[a].size))

Pt(e, p, d) == e.pts[p * e.dim + d]
WeightOf(e, T, k) == FoldLeft(LAMBDA a, j : a + e.w[e.perm[j] + 1], 0, [x \in 1..T[k].size |-> T[k].off + x])
Moment(e, T, k, d) == FoldLeft(LAMBDA a, j : a + e.w[e.perm[j] + 1] * Pt(e, e.perm[j], d), 0, [x \in 1..T[k].size |-> T[k].off + x])
Dist2(e, k, p) == FoldLeft(LAMBDA a, d : LET u == S * Pt(e, p, d) - e.c[(k - 1) * e.dim + d] IN a + u * u, 0, [x \in 1..e.dim |-> x])
CentreOK(e, T, k) ==
    LET W == WeightOf(e, T, k) IN
    \A d \in 1..e.dim : LET c == e.c[(k - 1) * e.dim + d] IN
        Abs(c) <= 20 * S + 1 /\ Abs(c * W - S * Moment(e, T, k, d)) <= W
BallOK(e, T, k) ==
    /\ e.r[k] >= 0 /\ e.r[k] < 45000
    /\ \A x \in 1..T[k].size : LET p == e.perm[T[k].off + x] g == e.r[k] - S * e.rad[p + 1] + 2 IN
          g >= 0 /\ g * g >= Dist2(e, k, p)
    /\ \E x \in 1..T[k].size : LET p == e.perm[T[k].off + x] g == e.r[k] - S * e.rad[p + 1] - 2 IN
          g <= 0 \/ g * g <= Dist2(e, k, p)
C02Final(e, T) ==
    IF ~(Len(e.perm) = e.N /\ IsPerm(e.perm)) THEN {"permutation"} ELSE
    UNION {Clause("centre", CentreOK(e, T, k)) : k \in 1..NN(e)}
    \cup UNION {IF CentreOK(e, T, k) THEN Clause("ball", BallOK(e, T, k)) ELSE {} : k \in 1..NN(e)}

C03Final(e, T) ==
    IF ~Expected(e) THEN {} ELSE
    LET ps == PartSeq(T) IN
       Clause("no partition", ~e.err /\ Len(e.partnodes) = e.parts)
    \cup (IF ~e.err THEN
         Clause("partition", PartitionRespected(T, CfgOf(e)))
         \cup Clause("inherit", RanksInherited(T))
         \cup Clause("leaves", LeavesInParts(T))
         \cup Clause("lookup", NParts(T) = e.parts /\ \A p \in 1..e.parts : p <= Len(e.partnodes) /\ e.partnodes[p] = ps[p])
         \cup Clause("level", Len(e.onpart) = NN(e) /\ \A k \in 1..NN(e) : (e.onpart[k] = 1) <=> (T[k].depth = T[ps[1]].depth))
         \cup Clause("locality", (e.plocal <=> Len(e.given) > 0)
               /\ (Len(e.given) > 0 => \A p \in 1..Len(e.given) : \A x \in 1..e.given[p][2] :
                     LET v == e.perm[e.given[p][1] + x] IN e.given[p][1] <= v /\ v < e.given[p][1] + e.given[p][2]))
       ELSE {})

(* C06: where a cluster is divided.  Along the longest side of its bounding box ("box"), or along the principal axis of its   *)
(* weighted points ("axis": the direction recorded from the library, in hundredths).                                       *)
IsCut(e, T, k) == Len(T[k].kids) > 0 /\ ~(Len(e.given) > 0 /\ k = 1)
Coords(e, T, k, d) == [x \in 1..T[k].size |-> Pt(e, e.perm[T[k].off + x], d)]
Extent(e, T, k, d) == LET c == Coords(e, T, k, d) IN MaxOf(ToSet(c)) - MinOf(ToSet(c))
\* pos(p): position of point p along the direction
Ordered(e, T, k, pos(_), tol) ==
    \A x \in 1..(Len(T[k].kids) - 1) : LET a == T[T[k].kids[x]] b == T[T[k].kids[x + 1]] IN
        MaxOf({pos(e.perm[a.off + y]) : y \in 1..a.size}) <= MinOf({pos(e.perm[b.off + y]) : y \in 1..b.size}) + tol
SizesOf(T, k) == [x \in 1..Len(T[k].kids) |-> T[T[k].kids[x]].size]
BoxCut(e, T, k) ==
    LET ext == [d \in 1..e.dim |-> Extent(e, T, k, d)] IN
    \E d \in {a \in 1..e.dim : \A b \in 1..e.dim : ext[a] >= ext[b]} :
        /\ Ordered(e, T, k, LAMBDA p : Pt(e, p, d), 0)
        /\ ~e.regular => SizesOf(T, k) = GeometricSizes(SortSeq(Coords(e, T, k, d), LAMBDA a, b : a < b), Len(T[k].kids), e.mcs)
\* weighted second moments about the centre, scaled to a trace of at most 1000
CoMoment(e, T, k, a, b) ==
    LET m == WeightOf(e, T, k) IN
    m * FoldLeft(LAMBDA acc, y : acc + e.w[e.perm[y] + 1] * Pt(e, e.perm[y], a) * Pt(e, e.perm[y], b), 0, [x \in 1..T[k].size |-> T[k].off + x])
      - Moment(e, T, k, a) * Moment(e, T, k, b)
Spread(C, v, n) == FoldLeft(LAMBDA a, x : a + FoldLeft(LAMBDA b, y : b + C[x][y] * v[x] * v[y], 0, [y \in 1..n |-> y]), 0, [x \in 1..n |-> x])
Norm2(v) == FoldLeft(LAMBDA a, x : a + x * x, 0, v)
Scaled(c, by) == IF c >= 0 THEN c \div by ELSE -((-c) \div by)
AxisCut(e, T, k, v) ==
    LET n == e.dim
        raw == [a \in 1..n |-> [b \in 1..n |-> CoMoment(e, T, k, a, b)]]
        trace == FoldLeft(LAMBDA x, a : x + raw[a][a], 0, [a \in 1..n |-> a])
        C == TLCEval([a \in 1..n |-> [b \in 1..n |-> Scaled(raw[a][b], (trace \div 1000) + 1)]])
        vn == Norm2(v) mine == Spread(C, v, n)
    IN trace = 0 \/
       (/\ \A d \in 1..n : Abs(v[d]) <= 101
        /\ vn >= 9700 /\ vn <= 10300
        /\ \A u \in [1..n -> (-3)..3] : (\E d \in 1..n : u[d] # 0) =>
               ((Spread(C, u, n) * vn) \div 100) * 100 <= ((mine * Norm2(u)) \div 100) * 102 + 40 * vn
        /\ Ordered(e, T, k, LAMBDA p : FoldLeft(LAMBDA a, d : a + v[d] * Pt(e, p, d), 0, [d \in 1..n |-> d]), 62))
Direction(e, T, k) == LET c == {x \in 1..Len(e.dirs) : e.dirs[x][1] = T[k].off /\ e.dirs[x][2] = T[k].size /\ e.dirs[x][3] = T[k].depth} IN
                      IF c = {} THEN <<>> ELSE LET x == CHOOSE y \in c : TRUE IN SubSeq(e.dirs[x], 4, 3 + e.dim)
C06Final(e, T) ==
    IF e.err \/ ~(Len(e.perm) = e.N /\ IsPerm(e.perm)) THEN {} ELSE
    UNION {IF ~IsCut(e, T, k) THEN {} ELSE
           Clause("equal pieces", ~e.regular \/ SizesOf(T, k) = RegularSizes(T[k].size, Len(T[k].kids)))
           \cup (IF e.strategy = "box" THEN Clause("longest side", BoxCut(e, T, k))
                ELSE LET v == Direction(e, T, k) IN Clause("principal axis", v # <<>> /\ AxisCut(e, T, k, v))) : k \in 1..NN(e)}

FinalClauses(e, T) == CASE Prop = "C01" -> C01Final(e, T)
                        [] Prop = "C02" -> C02Final(e, T)
                        [] Prop = "C03" -> C03Final(e, T)
                        [] Prop = "C06" -> C06Final(e, T)
                        [] OTHER -> {}

(***************************** actions ************************************)
Init == i = 1 /\ w = 0 /\ t = <<>> /\ cur = [N |-> 0] /\ ok = TRUE

\* the build starts: the specification creates the root
Begin == /\ w = 0 /\ i <= LogLen /\ E.op = "tree"
         /\ t' = <<Root(E.N)>>
         /\ w' = 1 /\ ok' = TRUE
         /\ cur' = E
         /\ UNCHANGED i
\* node w is left as a leaf, or split by a Split action that must be enabled
Step == /\ w >= 1 /\ w <= NN(cur)
        /\ LET ks == KidsOf(cur, w)
               sizes == [p \in 1..Len(ks) |-> cur.size[ks[p]]]
               isPart == Len(ks) > 0 /\ cur.rank[w] < 0 /\ cur.rank[ks[1]] >= 0
               fine == /\ w <= Len(t) /\ Len(ks) = cur.nk[w]
                       /\ Len(ks) > 0 => SplitEnabled(t, CfgOf(cur), w, sizes, isPart)
           IN IF ~ok THEN UNCHANGED <<t, ok>>
              ELSE IF ~fine THEN /\ ok' = FALSE /\ t' = t
                                 /\ (Prop = "C01" => Report(i, cur, {"split of node " \o ToString(w) \o " is not allowed"}))
              ELSE ok' = ok /\ t' = IF Len(ks) = 0 THEN t ELSE Split(t, CfgOf(cur), w, sizes, isPart)
        /\ w' = w + 1
        /\ UNCHANGED <<i, cur>>
\* the build ends: the tree built by the specification is the recorded one, and the guarantees hold
End == /\ w >= 1 /\ w = NN(cur) + 1
       /\ LET T == EvTree(cur)
              same == (ok /\ Expected(cur)) => (Len(t) = Len(T) /\ \A k \in 1..Len(T) : Same(t[k], T[k]))
          IN Report(i, cur, FinalClauses(cur, T)
                    \cup (IF Prop \in {"C01", "C03"} THEN Clause("tree differs from the one the splits produce", same) ELSE {}))
       /\ t' = EvTree(cur)
       /\ w' = 0 /\ i' = i + 1 /\ UNCHANGED <<cur, ok>>

\* C04: renumbering; relative to the node's offset
ConvOK(e) ==
    LET p == [x \in 1..e.size |-> cur.perm[e.off + x] - e.off] IN
    /\ IsPerm(p)
    /\ IF e.inv THEN Shape(e.out, e.size, 1) /\ MatEq(GatherRows(e.out, p), e.in)
                ELSE Shape(e.out, e.size, 1) /\ MatEq(e.out, GatherRows(e.in, p))
Convert == /\ w = 0 /\ i <= LogLen /\ E.op = "conv"
           /\ Report(i, E, Clause("renumbering", ConvOK(E)) \cup Clause("overrun", E.clean))
           /\ i' = i + 1 /\ UNCHANGED <<w, t, cur, ok>>

\* C05
Close(a, b) == Len(a) = Len(b) /\ \A x \in 1..Len(a) : Abs(a[x] - b[x]) <= 1
Reread == /\ w = 0 /\ i <= LogLen /\ E.op = "reread"
          /\ Report(i, E,
               Clause("tree", E.off = cur.off /\ E.size = cur.size /\ E.parent = cur.parent /\ E.depth = cur.depth /\ E.nk = cur.nk)
               \cup Clause("parts", E.rank = cur.rank /\ E.partnodes = cur.partnodes /\ E.onpart = cur.onpart)
               \cup Clause("counters", E.counter = cur.counter)
               \cup Clause("renumbering", E.perm = cur.perm /\ E.plocal = cur.plocal)
               \cup Clause("recorded depths", E.mind = cur.mind /\ E.maxd = cur.maxd)
               \cup Clause("minimum size", E.mincs = E.wantmcs)
               \cup Clause("root", E.root = cur.root)
               \cup Clause("equality", E.eq = cur.eq)
               \cup Clause("centres", Close(E.c, cur.c))
               \cup Clause("radii", Close(E.r, cur.r)))
          /\ i' = i + 1 /\ UNCHANGED <<w, t, cur, ok>>
\* the first five significant digits of every radius and centre survive
Digits == /\ w = 0 /\ i <= LogLen /\ E.op = "digits"
          /\ Report(i, E, Clause("significant digits", Close(E.a, E.b)))
          /\ i' = i + 1 /\ UNCHANGED <<w, t, cur, ok>>
NodesAt(d) == {k \in 1..Len(t) : t[k].depth = d}
GroupAt(d, x) == LET c == {k \in NodesAt(d) : t[k].off <= x /\ x < t[k].off + t[k].size} IN
                 IF c = {} THEN 0 ELSE Cardinality({k \in NodesAt(d) : t[k].off + t[k].size <= x})
GeomOK(e) == /\ Len(e.rows) = cur.dim /\ Len(e.groups) = Len(e.depths)
             /\ \A d \in 1..cur.dim : e.rows[d] = [x \in 1..cur.N |-> Pt(cur, cur.perm[x], d)]
             /\ \A g \in 1..Len(e.depths) : e.groups[g] = [x \in 1..cur.N |-> GroupAt(e.depths[g], x - 1)]
Geometry == /\ w = 0 /\ i <= LogLen /\ E.op = "geom"
            /\ Report(i, E, Clause("geometry table", GeomOK(E)))
            /\ i' = i + 1 /\ UNCHANGED <<w, t, cur, ok>>

Stop == w = 0 /\ i = LogLen + 1 /\ Finished(i - 1) /\ i' = i + 1 /\ UNCHANGED <<w, t, cur, ok>>
Next == Begin \/ Step \/ End \/ Convert \/ Reread \/ Digits \/ Geometry \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
