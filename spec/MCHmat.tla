------------------------------- MODULE MCHmat -------------------------------
(***************************************************************************)
(* Every block structure over small cluster trees, grown one block at a    *)
(* time, and on each of them the recursive product, triangular solves, LU, *)
(* Cholesky and vector product of HTree: they only meet blocks that exist  *)
(* and compute what the definition says.  Finished structures are written  *)
(* (HIST@) for the drivers to impose on the real library.                  *)
(***************************************************************************)
EXTENDS HTree
CONSTANTS Trees, Syms, Kinds, Emit, Check
Nd(o, s, k) == [o |-> o, s |-> s, kids |-> k]
Tree(id) ==
    CASE id = "n3c2" -> << Nd(0, 3, <<2, 3>>), Nd(0, 1, <<>>), Nd(1, 2, <<4, 5>>), Nd(1, 1, <<>>), Nd(2, 1, <<>>) >>
      [] id = "n3c3" -> << Nd(0, 3, <<2, 3, 4>>), Nd(0, 1, <<>>), Nd(1, 1, <<>>), Nd(2, 1, <<>>) >>
      [] id = "n4c2" -> << Nd(0, 4, <<2, 3>>), Nd(0, 2, <<4, 5>>), Nd(2, 2, <<6, 7>>), Nd(0, 1, <<>>), Nd(1, 1, <<>>), Nd(2, 1, <<>>), Nd(3, 1, <<>>) >>
      [] id = "n5c2" -> << Nd(0, 5, <<2, 3>>), Nd(0, 2, <<4, 5>>), Nd(2, 3, <<6, 7>>), Nd(0, 1, <<>>), Nd(1, 1, <<>>), Nd(2, 1, <<>>), Nd(3, 2, <<8, 9>>), Nd(3, 1, <<>>), Nd(4, 1, <<>>) >>
      [] id = "n6c2" -> << Nd(0, 6, <<2, 3>>), Nd(0, 3, <<4, 5>>), Nd(3, 3, <<6, 7>>), Nd(0, 1, <<>>), Nd(1, 2, <<8, 9>>), Nd(3, 1, <<>>), Nd(4, 2, <<10, 11>>), Nd(1, 1, <<>>), Nd(2, 1, <<>>), Nd(4, 1, <<>>), Nd(5, 1, <<>>) >>
      [] id = "n4c3" -> << Nd(0, 4, <<2, 3, 4>>), Nd(0, 1, <<>>), Nd(1, 1, <<>>), Nd(2, 2, <<5, 6>>), Nd(2, 1, <<>>), Nd(3, 1, <<>>) >>
VARIABLES tid, sym, bt, todo
vars == <<tid, sym, bt, todo>>
T == Tree(tid)
Init == tid \in Trees /\ sym \in Syms /\ bt = <<>> /\ todo = <<<<1, 1>>>>
\* stored pairs: all, or one triangle
Stored(x, y) == sym = "N" \/ (sym = "L" /\ T[x].o >= T[y].o) \/ (sym = "U" /\ T[x].o <= T[y].o)
KindsOf(b) == LET leaf == T[b[1]].kids = <<>> /\ T[b[2]].kids = <<>> IN
    IF b[1] = b[2] THEN (IF leaf THEN {"d"} ELSE {"split"})
    ELSE Kinds \cup (IF leaf THEN {} ELSE {"split"})
Pairs(b) == LET K == Kids(T, b[1]) H == Kids(T, b[2]) IN
    SelectSeq([k \in 1..(Len(K) * Len(H)) |-> <<K[(k - 1) \div Len(H) + 1], H[((k - 1) % Len(H)) + 1]>>], LAMBDA p : Stored(p[1], p[2]))
Grow(k) == LET b == Head(todo) IN
           /\ bt' = [x \in DOMAIN bt \cup {b} |-> IF x = b THEN k ELSE bt[x]]
           /\ todo' = Tail(todo) \o (IF k = "split" THEN Pairs(b) ELSE <<>>)
           /\ UNCHANGED <<tid, sym>>
Line(b) == ToString(T[b[1]].o) \o "," \o ToString(T[b[1]].s) \o "," \o ToString(T[b[2]].o) \o "," \o ToString(T[b[2]].s) \o "," \o bt'[b]
Out == Emit /\ todo' = <<>> => PrintT("HIST@" \o tid \o ";" \o sym \o ";" \o FoldLeft(LAMBDA acc, b : acc \o (IF acc = "" THEN "" ELSE " ") \o Line(b), "", SetToSeq(DOMAIN bt')))
Next == todo # <<>> /\ \E k \in KindsOf(Head(todo)) : Grow(k) /\ Out
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Val(i, j) == ((3 * i + 5 * j + i * j) % 7) - 3
\* unit lower and +-1 upper factors
Lo == Mat(T, LAMBDA i, j : IF i = j THEN 1 ELSE IF i > j THEN (IF Val(i, j) % 2 = 0 THEN 1 ELSE -1) ELSE 0)
Up == Mat(T, LAMBDA i, j : IF i = j THEN (IF i % 2 = 0 THEN -1 ELSE 1) ELSE IF i < j THEN 1 + (Val(j, i) % 2) ELSE 0)
A0 == Mat(T, LAMBDA i, j : Val(i, j))
B0 == Mat(T, LAMBDA i, j : Val(j, i) + 1)
C0 == Mat(T, LAMBDA i, j : i - j)
\* the finest structure, the coarsest one, and the mirror image of this one
RECURSIVE AllPairs(_, _)
AllPairs(x, y) == {<<x, y>>} \cup (IF T[x].kids = <<>> /\ T[y].kids = <<>> THEN {} ELSE UNION {AllPairs(Kids(T, x)[k], Kids(T, y)[l]) : k \in 1..Len(Kids(T, x)), l \in 1..Len(Kids(T, y))})
Fine == TLCEval([b \in AllPairs(1, 1) |-> IF T[b[1]].kids = <<>> /\ T[b[2]].kids = <<>> THEN "d" ELSE "split"])
Coarse == TLCEval([b \in {<<1, 1>>} \cup {<<Kids(T, 1)[k], Kids(T, 1)[l]>> : k, l \in 1..Len(Kids(T, 1))} |-> IF b = <<1, 1>> THEN "split" ELSE "d"])
Mirror == TLCEval([b \in {<<c[2], c[1]>> : c \in DOMAIN bt} |-> bt[<<b[2], b[1]>>]])
Done == todo = <<>>
Tiles == Done => \A i, j \in 1..N(T) : Cardinality({b \in Leaves(bt) : (i \in Rng(T, b[1]) /\ j \in Rng(T, b[2]))
                                                            \/ (sym # "N" /\ b[1] # b[2] /\ j \in Rng(T, b[1]) /\ i \in Rng(T, b[2]))}) = 1
SymA0 == Mat(T, LAMBDA i, j : IF sym = "N" \/ (sym = "L" /\ i >= j) \/ (sym = "U" /\ i <= j) THEN Val(i, j) ELSE Val(j, i))
VecOK == Check /\ Done => \A k \in 1..2 : LET x == [i \in 1..N(T) |-> IF k = 1 THEN i - 2 ELSE 2 * (i % 2) - i] IN
                      MV(T, SymA0, bt, sym # "N", x) = [i \in 1..N(T) |-> Sum(LAMBDA j : SymA0[<<i, j>>] * x[j], 1..N(T))]
Plus(A, B) == [p \in DOMAIN A |-> A[p] + B[p]]
ProdOK == Check /\ Done /\ sym = "N" =>
    LET AB == TLCEval(Plus(C0, Times(T, A0, B0))) AtB == TLCEval(Plus(C0, Times(T, Tr(A0), B0))) ABt == TLCEval(Plus(C0, Times(T, A0, Tr(B0)))) IN
    \A other \in {Fine, Coarse, bt, Mirror} :
        /\ HMul(T, C0, bt, 1, A0, other, FALSE, B0, Mirror, FALSE, 1, 1, 1) = AB
        /\ HMul(T, C0, other, 1, A0, bt, FALSE, B0, bt, FALSE, 1, 1, 1) = AB
        /\ HMul(T, C0, other, 1, Tr(A0), bt, TRUE, B0, Mirror, FALSE, 1, 1, 1) = AtB
        /\ HMul(T, C0, bt, 1, A0, other, FALSE, Tr(B0), bt, TRUE, 1, 1, 1) = ABt
SolveOK == Check /\ Done /\ sym = "N" =>
    \A low \in BOOLEAN, tr \in BOOLEAN, d \in {"U", "N"}, other \in {Fine, Coarse, bt} :
        LET \* op(A): lower or upper, and something else in the other triangle that must not matter
            O == Mat(T, LAMBDA i, j : IF (low /\ i >= j) \/ (~low /\ i <= j) THEN (IF i = j THEN (IF d = "U" THEN 7 ELSE IF i % 2 = 0 THEN -1 ELSE 1) ELSE Val(i, j) % 3) ELSE 11)
            P == Mat(T, LAMBDA i, j : IF (low /\ i > j) \/ (~low /\ i < j) THEN O[<<i, j>>] ELSE IF i = j THEN Diag(O, d, i) ELSE 0)
            L == SolveLeft(T, Times(T, P, A0), other, O, bt, tr, low, d, 1, 1)
            R == SolveRight(T, Times(T, A0, P), other, O, bt, tr, low, d, 1, 1)
        IN L = A0 /\ R = A0
LUOK == Check /\ Done /\ sym = "N" => LU(T, Times(T, Lo, Up), bt, 1) = Mat(T, LAMBDA i, j : IF i > j THEN Lo[<<i, j>>] ELSE Up[<<i, j>>])
CholOK == Check /\ Done =>
    LET S == Times(T, Lo, Tr(Lo))
        ok(up) == LET W == Mat(T, LAMBDA i, j : IF (up /\ i > j) \/ (~up /\ i < j) THEN 99 ELSE S[<<i, j>>])
                      R == Chol(T, W, bt, up, 1)
                  IN ~IsBroken(R) /\ \A i, j \in 1..N(T) : (IF up THEN i <= j ELSE i >= j) => R[<<i, j>>] = (IF up THEN Lo[<<j, i>>] ELSE Lo[<<i, j>>])
    IN (sym # "U" => ok(FALSE)) /\ (sym # "L" => ok(TRUE))
==============================================================================
