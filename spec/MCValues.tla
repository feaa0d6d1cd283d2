------------------------------ MODULE MCValues -------------------------------
(* Exhaustive exploration of Values on small shapes; histories for replay (HIST@...). *)
EXTENDS Values, TLC, SequencesExt
CONSTANTS NSlots, NForeign, Shapes, MaxLen, Emit
Slots == 1..NSlots
Shapes4 == {<<0, 0>>, <<0, 2>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
VARIABLES S, last, hist
vars == <<S, last, hist>>
V(k) == <<k, 0>>
Init == /\ S = [slot |-> [x \in Slots |-> Dead], heap |-> [b \in 1..NForeign |-> Fill(4, V(1))], foreign |-> 1..NForeign, file |-> <<>>]
        /\ last = [f |-> ""] /\ hist = <<>>
Ops == UNION {
    {[f |-> f, x |-> x] : f \in {"default", "save", "load", "drop"}, x \in Slots},
    {[f |-> "release", x |-> x, b |-> S.slot[x].buf, i |-> IF S.slot[x].own /\ S.slot[x].buf # 0 THEN 1 ELSE 0] : x \in Slots},
    {[f |-> f, x |-> x, m |-> s[1], n |-> s[2], v |-> V(IF f = "resize" /\ x = 2 THEN 0 ELSE 2)] : f \in {"make", "resize"}, x \in Slots, s \in Shapes},
    {[f |-> f, x |-> x, y |-> y] : f \in {"cc", "mc", "assign", "massign", "viewof"}, x \in Slots, y \in Slots},
    {[f |-> f, x |-> x, b |-> b, m |-> s[1], n |-> s[2]] : f \in {"view", "adopt"}, x \in Slots, b \in S.foreign, s \in {<<0, 2>>, <<2, 1>>, <<2, 2>>}},
    {[f |-> "fill", x |-> x, v |-> V(3)] : x \in Slots},
    {[f |-> "set", x |-> x, i |-> 0, j |-> 1, v |-> V(4)] : x \in Slots},
    {[f |-> "setrow", x |-> x, i |-> i, w |-> Fill(S.slot[x].n, V(2))] : i \in {0, 1}, x \in Slots},
    {[f |-> "setcol", x |-> x, i |-> i, w |-> Fill(S.slot[x].m, V(3))] : i \in {0, 1}, x \in Slots},
    {[f |-> "poke", b |-> b, i |-> 0, v |-> V(5)] : b \in S.foreign}}
Arg(e, k) == IF k \in DOMAIN e THEN ToString(e[k]) ELSE "0"
Line(e) == e.f \o ":" \o Arg(e, "x") \o ":" \o Arg(e, "y") \o ":" \o Arg(e, "b") \o ":" \o Arg(e, "m") \o ":" \o Arg(e, "n") \o ":" \o Arg(e, "i") \o ":" \o Arg(e, "j")
Go == /\ Len(hist) < MaxLen
      /\ \E e \in Ops : /\ Allowed(S, e) /\ S' = Effect(S, e) /\ last' = e
                        /\ hist' = Append(hist, IF Emit THEN Line(e) ELSE "")
Write == /\ Emit /\ Len(hist) = MaxLen
         /\ PrintT("HIST@" \o ToString(NForeign) \o FoldLeft(LAMBDA a, x : a \o ";" \o x, "", hist))
         /\ hist' = Append(hist, "end") /\ UNCHANGED <<S, last>>
Next == Go \/ Write
Spec == Init /\ [][Next]_vars
Look == <<S, Len(hist)>>

Owned == Ownership(S)
Fits == Room(S)
Sound == NoDangling(S)
\* foreign memory is never given back by a handle, and a handle that took it over gives it back once
Kept == [][\A b \in S.foreign : b \in Hold(S') /\ (b \notin S'.foreign => last'.f = "adopt" /\ last'.b = b)]_vars
\* a copy holds the same value and shares nothing; a move transfers the very buffer
CopyOK == [][last'.f \in {"cc", "assign"} /\ last'.x # last'.y =>
                /\ Get(S', last'.x) = Get(S, last'.y) /\ S'.slot[last'.x].m = S.slot[last'.y].m
                /\ (last'.f = "cc" => S'.slot[last'.x].own /\ \A z \in Slots \ {last'.x} : S'.slot[z].buf # S'.slot[last'.x].buf)]_vars
MoveOK == [][last'.f \in {"mc", "massign"} /\ last'.x # last'.y =>
                S'.slot[last'.x] = S.slot[last'.y] /\ S'.slot[last'.y].buf = 0 /\ SizeOf(S'.slot[last'.y]) = 0]_vars
\* only handles sharing the buffer of the one written to can change
Shares(x, y) == S.slot[x].buf # 0 /\ S.slot[x].buf = S.slot[y].buf
Frame == [][\A z \in Slots : Readable(S, z) /\ Readable(S', z) /\ Get(S', z) # Get(S, z) =>
                IF last'.f = "poke" THEN S.slot[z].buf = last'.b
                ELSE z = last'.x \/ ("y" \in DOMAIN last' /\ z = last'.y /\ last'.f \in {"mc", "massign"}) \/ Shares(z, last'.x)]_vars
\* a handle without a view on foreign memory never changes it
Outside == [][\A b \in S.foreign : S'.heap[b] # S.heap[b] =>
                last'.f = "poke" \/ S.slot[last'.x].buf = b]_vars
=============================================================================
