------------------------------- MODULE Values --------------------------------
(***************************************************************************)
(* Dense matrices as values: handles onto buffers of coefficients.         *)
(* A state S is a record                                                   *)
(*   slot    : handle -> [live, own, buf, m, n]   (buf = 0: no data)       *)
(*   heap    : buffer -> sequence of coefficients <<re, im>>               *)
(*   foreign : buffers that belong to the caller, not to a handle          *)
(*   file    : what was last saved, <<>> at first                          *)
(* Pre(S, e) says when the operation e names may be used, Eff(S, e) is its *)
(* effect.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Dead == [live |-> FALSE, own |-> FALSE, buf |-> 0, m |-> 0, n |-> 0]
Handle(own, b, m, n) == [live |-> TRUE, own |-> own, buf |-> b, m |-> m, n |-> n]
SizeOf(o) == o.m * o.n
Hold(S) == DOMAIN S.heap
Fresh(S) == CHOOSE b \in 1..(Cardinality(Hold(S)) + 1) : b \notin Hold(S) /\ \A c \in 1..(b - 1) : c \in Hold(S)
Cut(s, k) == SubSeq(s, 1, k)
Fill(k, v) == [i \in 1..k |-> v]
Content(S, o) == Cut(S.heap[o.buf], SizeOf(o))
Readable(S, x) == S.slot[x].live /\ (S.slot[x].buf # 0 \/ SizeOf(S.slot[x]) = 0)
Get(S, x) == IF SizeOf(S.slot[x]) = 0 THEN <<>> ELSE Content(S, S.slot[x])
\* S with x standing for o; the buffer x owned alone is returned
Release(S, x) == IF S.slot[x].live /\ S.slot[x].own /\ S.slot[x].buf # 0
                 THEN [b \in Hold(S) \ {S.slot[x].buf} |-> S.heap[b]] ELSE S.heap
Ext(h, b, v) == [c \in DOMAIN h \cup {b} |-> IF c = b THEN v ELSE h[c]]
\* x becomes an owner of fresh coefficients v (in a buffer no handle looks at)
Renew(S, x, m, n, v) == LET S1 == [S EXCEPT !.heap = Release(S, x)] b == Fresh(S) IN
    [S1 EXCEPT !.slot[x] = Handle(TRUE, b, m, n), !.heap = Ext(@, b, v)]
\* x keeps its buffer, whose first coefficients become v
Overwrite(S, x, m, n, v) == LET b == S.slot[x].buf IN
    [S EXCEPT !.slot[x].m = m, !.slot[x].n = n, !.heap[b] = v \o SubSeq(@, Len(v) + 1, Len(@))]
Copy(S, x, y) == LET v == Get(S, y) o == S.slot[y] IN
    IF S.slot[x].buf # 0 /\ SizeOf(S.slot[x]) = SizeOf(o) THEN Overwrite(S, x, o.m, o.n, v) ELSE Renew(S, x, o.m, o.n, v)
Empty(o) == [o EXCEPT !.buf = 0, !.m = 0, !.n = 0]

Pre(S, e) ==
    CASE e.f = "default" -> ~S.slot[e.x].live
      [] e.f = "make" -> ~S.slot[e.x].live
      [] e.f = "cc" -> ~S.slot[e.x].live /\ Readable(S, e.y)
      [] e.f = "mc" -> ~S.slot[e.x].live /\ S.slot[e.y].live
      [] e.f = "assign" -> S.slot[e.x].live /\ Readable(S, e.y)
      [] e.f = "massign" -> S.slot[e.x].live /\ S.slot[e.y].live
      [] e.f = "view" -> S.slot[e.x].live /\ e.b \in S.foreign /\ e.m * e.n <= Len(S.heap[e.b])
      [] e.f = "viewof" -> e.x # e.y /\ S.slot[e.x].live /\ S.slot[e.y].live /\ S.slot[e.y].buf # 0
      [] e.f = "adopt" -> S.slot[e.x].live /\ e.b \in S.foreign /\ e.m * e.n <= Len(S.heap[e.b])
                          /\ \A z \in DOMAIN S.slot : ~(S.slot[z].live /\ S.slot[z].buf = e.b)
      [] e.f = "resize" -> S.slot[e.x].live
      [] e.f = "fill" -> Readable(S, e.x)
      [] e.f = "set" -> Readable(S, e.x) /\ e.i < S.slot[e.x].m /\ e.j < S.slot[e.x].n
      [] e.f = "setrow" -> Readable(S, e.x) /\ e.i < S.slot[e.x].m
      [] e.f = "setcol" -> Readable(S, e.x) /\ e.i < S.slot[e.x].n
      [] e.f = "poke" -> e.b \in S.foreign /\ e.i < Len(S.heap[e.b])
      [] e.f = "release" -> S.slot[e.x].live
      [] e.f = "save" -> Readable(S, e.x)
      [] e.f = "load" -> S.slot[e.x].live /\ S.file # <<>>
      [] e.f = "drop" -> S.slot[e.x].live
      [] OTHER -> FALSE
At(o, i, j) == j * o.m + i + 1
Effect(S, e) ==
    CASE e.f = "default" -> [S EXCEPT !.slot[e.x] = Handle(TRUE, 0, 0, 0)]
      [] e.f = "make" -> Renew(S, e.x, e.m, e.n, Fill(e.m * e.n, e.v))
      [] e.f = "cc" -> Renew(S, e.x, S.slot[e.y].m, S.slot[e.y].n, Get(S, e.y))
      [] e.f = "mc" -> [S EXCEPT !.slot[e.x] = S.slot[e.y], !.slot[e.y] = Empty(@)]
      [] e.f = "assign" -> IF e.x = e.y THEN S ELSE Copy(S, e.x, e.y)
      [] e.f = "massign" -> IF e.x = e.y THEN S
                            ELSE [S EXCEPT !.heap = Release(S, e.x), !.slot[e.x] = S.slot[e.y], !.slot[e.y] = Empty(@)]
      [] e.f = "view" -> [S EXCEPT !.heap = Release(S, e.x), !.slot[e.x] = Handle(FALSE, e.b, e.m, e.n)]
      [] e.f = "viewof" -> [S EXCEPT !.heap = Release(S, e.x), !.slot[e.x] = Handle(FALSE, S.slot[e.y].buf, S.slot[e.y].m, S.slot[e.y].n)]
      [] e.f = "adopt" -> [S EXCEPT !.heap = Release(S, e.x), !.slot[e.x] = Handle(TRUE, e.b, e.m, e.n), !.foreign = @ \ {e.b}]
      [] e.f = "resize" -> IF S.slot[e.x].buf = 0 \/ SizeOf(S.slot[e.x]) # e.m * e.n
                           THEN Renew(S, e.x, e.m, e.n, Fill(e.m * e.n, e.v))
                           ELSE Overwrite(S, e.x, e.m, e.n, Fill(e.m * e.n, e.v))
      [] e.f = "fill" -> IF SizeOf(S.slot[e.x]) = 0 THEN S ELSE Overwrite(S, e.x, S.slot[e.x].m, S.slot[e.x].n, Fill(SizeOf(S.slot[e.x]), e.v))
      [] e.f = "set" -> [S EXCEPT !.heap[S.slot[e.x].buf][At(S.slot[e.x], e.i, e.j)] = e.v]
      [] e.f = "setrow" -> IF SizeOf(S.slot[e.x]) = 0 THEN S
                           ELSE LET o == S.slot[e.x] IN [S EXCEPT !.heap[o.buf] = [k \in 1..Len(@) |->
                                  IF k <= SizeOf(o) /\ (k - 1) % o.m = e.i THEN e.w[((k - 1) \div o.m) + 1] ELSE @[k]]]
      [] e.f = "setcol" -> IF SizeOf(S.slot[e.x]) = 0 THEN S
                           ELSE LET o == S.slot[e.x] IN [S EXCEPT !.heap[o.buf] = [k \in 1..Len(@) |->
                                  IF k <= SizeOf(o) /\ (k - 1) \div o.m = e.i THEN e.w[((k - 1) % o.m) + 1] ELSE @[k]]]
      [] e.f = "poke" -> [S EXCEPT !.heap[e.b][e.i + 1] = e.v]
      [] e.f = "release" -> [S EXCEPT !.foreign = IF S.slot[e.x].own /\ S.slot[e.x].buf # 0 THEN @ \cup {S.slot[e.x].buf} ELSE @,
                                      !.slot[e.x].buf = 0]
      [] e.f = "save" -> [S EXCEPT !.file = <<S.slot[e.x].m, S.slot[e.x].n, Get(S, e.x)>>]
      [] e.f = "load" -> Renew(S, e.x, S.file[1], S.file[2], S.file[3])
      [] e.f = "drop" -> [S EXCEPT !.heap = Release(S, e.x), !.slot[e.x] = Dead]
\* views must not outlive what they look at
NoDangling(S) == \A x \in DOMAIN S.slot : S.slot[x].live /\ S.slot[x].buf # 0 => S.slot[x].buf \in Hold(S)
Allowed(S, e) == Pre(S, e) /\ NoDangling(Effect(S, e))

\* what ownership means
Owners(S, b) == {x \in DOMAIN S.slot : S.slot[x].live /\ S.slot[x].own /\ S.slot[x].buf = b}
Ownership(S) == \A b \in Hold(S) : Cardinality(Owners(S, b)) = IF b \in S.foreign THEN 0 ELSE 1
Room(S) == \A x \in DOMAIN S.slot : S.slot[x].live /\ S.slot[x].buf # 0 => SizeOf(S.slot[x]) <= Len(S.heap[S.slot[x].buf])
=============================================================================
