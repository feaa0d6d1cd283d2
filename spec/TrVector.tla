------------------------------ MODULE TrVector -------------------------------
(* Definitions of the vector helpers, and the acceptor of d_vector's traces (V01).
   A vector is a sequence of coefficients <<re, im>>. *)
EXTENDS TraceBase
VARIABLE i
E == Log[i]
Times(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Bar(a) == <<a[1], -a[2]>>
Mod2(a) == a[1] * a[1] + a[2] * a[2]
Total(v) == FoldLeft(Plus, <<0, 0>>, v)
Map(v, F(_)) == [k \in 1..Len(v) |-> F(v[k])]
Zip2(a, b, F(_, _)) == [k \in 1..Len(a) |-> F(a[k], b[k])]
Attains(e, k, best(_, _)) == k \in 1..Len(e.a) /\ \A l \in 1..Len(e.a) : best(Mod2(e.a[k]), Mod2(e.a[l]))
Geq(x, y) == x >= y
Leq(x, y) == x <= y
\* pieces of a text between occurrences of a delimiter, as the driver numbered them
Good(e) ==
    CASE e.f \in {"sum", "plus"} -> e.r = Zip2(e.a, e.b, Plus)
      [] e.f \in {"difference", "minus"} -> e.r = Zip2(e.a, e.b, LAMBDA x, y : Plus(x, Times(<<-1, 0>>, y)))
      [] e.f \in {"scalar times vector", "vector times scalar", "scaling in place"} -> e.r = Map(e.a, LAMBDA x : Times(e.s, x))
      [] e.f \in {"quotient", "division in place"} -> e.a = Map(e.r, LAMBDA x : Times(e.s, x))
      [] e.f = "inner product" -> e.r = Total(Zip2(e.a, e.b, LAMBDA x, y : Times(x, Bar(y))))
      [] e.f = "squared norm" -> e.r = Total(Map(e.a, LAMBDA x : <<Mod2(x), 0>>))
      [] e.f = "sum through the mean" -> e.r = Total(e.a)
      [] e.f = "largest" -> \E k \in 1..Len(e.a) : e.a[k] = e.r /\ Attains(e, k, Geq)
      [] e.f = "smallest" -> \E k \in 1..Len(e.a) : e.a[k] = e.r /\ Attains(e, k, Leq)
      [] e.f = "position of the largest" -> Attains(e, e.k + 1, Geq)
      [] e.f = "conjugate" -> e.r = Map(e.a, Bar)
      [] e.f = "no conjugate" -> e.r = e.a
      [] e.f = "selection" -> e.r = [k \in 1..Len(e.idx) |-> e.a[e.idx[k] + 1]]
      [] e.f = "selection size" -> e.k = Len(e.idx)
      [] e.f = "product with a selection" -> e.r = Total([k \in 1..Len(e.idx) |-> Times(e.a[e.idx[k] + 1], e.b[k])])
      [] e.f = "write to a selection" -> e.r = [p \in 1..Len(e.a) |-> IF \E k \in 1..Len(e.idx) : e.idx[k] = p - 1
                                                THEN e.b[CHOOSE k \in 1..Len(e.idx) : e.idx[k] = p - 1] ELSE e.a[p]]
      [] e.f = "same" -> e.x = e.y
      [] OTHER -> FALSE
Untouched(e) == IF "a2" \in DOMAIN e THEN Clause("an operand changed", e.a2 = e.a) ELSE {}
Init == i = 1
Do == i <= LogLen /\ i' = i + 1 /\ Report(i, E, Clause(IF E.f = "same" THEN E.what ELSE E.f, Good(E)) \cup Untouched(E))
Stop == i = LogLen + 1 /\ Finished(i - 1) /\ i' = i + 1
Next == Do \/ Stop
Spec == Init /\ [][Next]_i
=============================================================================
