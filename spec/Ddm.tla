-------------------------------- MODULE Ddm ---------------------------------
(***************************************************************************)
(* Overlapping subdomains of a distributed system.  Process k owns a part  *)
(* of the unknowns and shares others with its neighbours.  A layout is     *)
(*   [np, n, to, ts : parts, in partition numbering,                       *)
(*    pt : position -> user index,  G : the system, user numbering,        *)
(*    ovr : per process, user indices of its subdomain in the order the    *)
(*          user lists them,  nb : per process, its neighbours,            *)
(*    inter : per process and neighbour, places in ovr of what they share].*)
(* Indices in the sequences are 0-based, processes too.                    *)
(***************************************************************************)
EXTENDS LinAlg
SeqRange(s) == {s[x] : x \in 1..Len(s)}
Own(L, k) == TLCEval([x \in 1..L.ts[k] |-> L.pt[L.to[k] + x]])
\* the subdomain's own numbering: first the unknowns of the process, in the order of its part, then the rest as listed
Num(L, k) == LET o == Own(L, k) IN TLCEval(o \o SelectSeq(L.ovr[k], LAMBDA u : u \notin SeqRange(o)))
Distinct(s) == \A x \in 1..Len(s), y \in 1..Len(s) : x # y => s[x] # s[y]
Shared(L, k, j) == SeqRange(L.ovr[k]) \cap SeqRange(L.ovr[j])
Deref(s, ix) == TLCEval([x \in 1..Len(ix) |-> s[ix[x] + 1]])
PlaceOf(s, v) == CHOOSE x \in 1..Len(s) : s[x] = v
\* the two neighbours list what they share in the same order
Agreeing(L, nums, nb, inter) ==
    \A k \in 1..L.np : \A z \in 1..Len(nb[k]) :
        LET j == nb[k][z] + 1
            there == \E y \in 1..Len(nb[j]) : nb[j][y] = k - 1
            y == PlaceOf(nb[j], k - 1) IN
        /\ \A x \in 1..Len(inter[k][z]) : inter[k][z][x] \in 0..(Len(nums[k]) - 1)
        /\ there /\ Deref(nums[k], inter[k][z]) = Deref(nums[j], inter[j][y])
        /\ SeqRange(Deref(nums[k], inter[k][z])) = Shared(L, k, j) /\ Distinct(inter[k][z])
LayoutOK(L) ==
    /\ IsPerm(L.pt) /\ Len(L.pt) = L.n /\ SumSeq(L.ts) = L.n /\ Shape(L.G, L.n, L.n)
    /\ \A k \in 1..L.np : /\ L.to[k] = SumSeq(SubSeq(L.ts, 1, k - 1)) /\ Distinct(L.ovr[k])
                          /\ SeqRange(Own(L, k)) \subseteq SeqRange(L.ovr[k])
    /\ \A k \in 1..L.np, j \in 1..L.np : k # j => ((Shared(L, k, j) # {}) = ((j - 1) \in SeqRange(L.nb[k])))
    /\ Agreeing(L, L.ovr, L.nb, L.inter)

LocalMat(L, k) == Gather(L.G, Num(L, k), Num(L, k))
RestrictTo(L, X, k) == GatherRows(X, Num(L, k))
\* partition of unity: every unknown is counted once in total
UnityAt(L, W, u) == SumSeq([k \in 1..L.np |-> IF u \in SeqRange(Num(L, k)) THEN W[k][PlaceOf(Num(L, k), u)] ELSE 0]) = 1
PartitionOfUnity(L, W) == /\ \A k \in 1..L.np : Len(W[k]) = Len(Num(L, k))
                          /\ \A u \in 0..(L.n - 1) : UnityAt(L, W, u)
\* coarse vectors: columns of Z[k] live on the unknowns process k owns (what they hold beyond them does not count)
Hor(n, blocks) == LET off == [k \in 1..Len(blocks) |-> SumSeq([j \in 1..(k - 1) |-> blocks[j].n])]
                  IN FoldLeft(LAMBDA a, k : AddAt(a, blocks[k], 0, off[k]), ZeroMat(n, SumSeq([k \in 1..Len(blocks) |-> blocks[k].n])), [k \in 1..Len(blocks) |-> k])
CoarseBasis(L, Z) == Hor(L.n, [k \in 1..L.np |-> AddAt(ZeroMat(L.n, Z[k].n), SubMat(Z[k], 0, L.ts[k], 0, Z[k].n), L.to[k], 0)])
\* Z* A Z
CoarseOperator(L, Z) == LET B == TLCEval(CoarseBasis(L, Z)) A == Gather(L.G, L.pt, L.pt)
                        IN MulMat(Conj(Transpose(B)), TLCEval(MulMat(A, B)))

(* Generalised eigenvalue problem with known pairs: A v = (a/b) B v, or, for two vectors v, v' that belong to a pair of  *)
(* conjugate ratios (a +- ic)/b of real matrices, b A v = a B v - c B v', b A v' = c B v + a B v' (v' holds -c).  Which   *)
(* vectors a coarse space of the nu largest ratios, or of all ratios above t/s, consists of, largest first.  b = 0: infinite. *)
Mod2(p) == p.a * p.a + p.c * p.c                       \* modulus, squared, times b*b
Greater(p, q) == IF q.b = 0 THEN p.b = 0 /\ p.j < q.j
                 ELSE IF p.b = 0 THEN TRUE
                 ELSE LET x == Mod2(p) * q.b * q.b y == Mod2(q) * p.b * p.b IN x > y \/ (x = y /\ p.j < q.j)
Above(p, t, s) == p.b = 0 \/ Mod2(p) * s * s > t * t * p.b * p.b
Sorted(P) == SortSeq(P, Greater)
Chosen(P, nu, t, s) == LET S == TLCEval(Sorted(P)) IN IF t > 0 THEN SelectSeq(S, LAMBDA p : Above(p, t, s)) ELSE SubSeq(S, 1, nu)
=============================================================================
