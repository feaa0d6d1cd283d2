------------------------------ MODULE TrValues -------------------------------
(* Acceptor for traces of d_value, suite M03: dense matrices as values. *)
EXTENDS Values, TraceBase
VARIABLES i, S
vars == <<i, S>>
E == Log[i]
Step(op) == i <= LogLen /\ E.op = op /\ i' = i + 1
Init == i = 1 /\ S = [slot |-> <<>>, heap |-> <<>>, foreign |-> {}, file |-> <<>>]
Case == /\ Step("case")
        /\ S' = [slot |-> [x \in 1..E.slots |-> Dead], heap |-> E.heap, foreign |-> DOMAIN E.heap, file |-> <<>>]
\* what the driver sees of a handle and of the caller's memory
SlotClauses(T, o) ==
    LET h == T.slot[o.o] IN
    Clause("a handle that should be gone", h.live)
    \cup (IF ~h.live THEN {} ELSE
          Clause("shape of a matrix", o.m = h.m /\ o.n = h.n)
          \cup Clause("a matrix with data where there is none, or the reverse", o.null = (h.buf = 0))
          \cup (IF h.buf # 0 /\ ~o.null /\ o.m = h.m /\ o.n = h.n THEN Clause("coefficients of a matrix", o.v = Content(T, h)) ELSE {}))
Observed(T, e) ==
    UNION {SlotClauses(T, e.obs[k]) : k \in 1..Len(e.obs)}
    \cup Clause("number of live matrices", {e.obs[k].o : k \in 1..Len(e.obs)} = {x \in DOMAIN T.slot : T.slot[x].live})
    \cup UNION {LET f == e.foreign[k] IN
                Clause("memory that belongs to the caller", f.b \in T.foreign /\ f.v = T.heap[f.b]) : k \in 1..Len(e.foreign)}
    \cup Clause("memory that belongs to the caller", {e.foreign[k].b : k \in 1..Len(e.foreign)} = T.foreign)
    \cup Clause("number of allocations alive", e.allocs = Cardinality(Hold(T)))
    \cup Clause("memory given back twice or never obtained", e.wild = 0)
V == /\ Step("v")
     /\ IF ~Allowed(S, E) THEN Report(i, E, {"the driver used an operation outside its contract"}) /\ S' = S
        ELSE LET T == Effect(S, E) IN Report(i, E, Observed(T, E)) /\ S' = T

\* reading and arithmetic
Max2(A) == [k \in 1..Len(A.d) |-> A.d[k] * A.d[k] + ImSeq(A)[k] * ImSeq(A)[k]]
Sum1(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Row(A, r) == SubMat(A, r, 1, 0, A.n)
Col(A, c) == SubMat(A, 0, A.m, c, 1)
Slice(A, start, len, stride) ==
    LET P(k, l) == A.d[start + (k - 1) * stride + 1] Q(k, l) == A.e[start + (k - 1) * stride + 1]
    IN IF IsCplx(A) THEN MkC(len, 1, P, Q) ELSE MkR(len, 1, P)
ArithOK(e) ==
    CASE e.f = "sum" -> MatEq(e.R, AddMat(e.A, e.B))
      [] e.f = "difference" -> MatEq(e.R, AddMat(e.A, ScaleMat(<<-1, 0>>, e.B)))
      [] e.f = "times scalar" -> MatEq(e.R, ScaleMat(e.a, e.A))
      [] e.f = "product" -> MatEq(e.R, MulMat(e.A, e.B))
      [] e.f = "times vector" -> MatEq(e.R, MulMat(e.A, e.B))
      [] e.f = "squared Frobenius norm" -> e.R = Sum1(Max2(e.A))
      [] e.f = "position of the largest" -> LET q == Max2(e.A) p == e.j * e.A.m + e.i + 1 IN
            e.i >= 0 /\ e.i < e.A.m /\ e.j >= 0 /\ e.j < e.A.n /\ \A k \in 1..Len(q) : q[k] <= q[p]
      [] e.f = "row" -> MatEq(e.R, Transpose(Row(e.A, e.i)))
      [] e.f = "column" -> MatEq(e.R, Col(e.A, e.i))
      [] e.f = "slice" -> MatEq(e.R, Slice(e.A, e.i, e.j, e.k))
      [] e.f = "text" -> MatEq(e.R, e.A)
      [] e.f = "bytes" -> e.R = e.A
      [] OTHER -> FALSE
Arith == Step("arith") /\ S' = S /\ Report(i, E, Clause(E.f, ArithOK(E)))
Stop == i = LogLen + 1 /\ Finished(i - 1) /\ i' = i + 1 /\ S' = S
Next == Case \/ V \/ Arith \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
