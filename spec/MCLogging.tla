----------------------------- MODULE MCLogging -------------------------------
(* All histories of a few writers, thresholds and messages. *)
EXTENDS Logging, TLC, SequencesExt
CONSTANTS Writers, Levels, Default, MaxLen, Emit
VARIABLES S, sent, hist
vars == <<S, sent, hist>>
Init == S = [cur |-> 1, lvl |-> [w \in 1..Writers |-> Default], out |-> [w \in 1..Writers |-> <<>>]] /\ sent = <<>> /\ hist = <<>>
Line(e) == e.f \o ":" \o ToString(IF e.f = "writer" THEN e.w ELSE e.l)
Do(e) == S' = Effect(S, e) /\ hist' = Append(hist, Line(e))
Next == \/ Len(hist) < MaxLen /\ \/ \E w \in 1..Writers : Do([f |-> "writer", w |-> w]) /\ sent' = sent
                                 \/ \E l \in Levels : Do([f |-> "level", l |-> l]) /\ sent' = sent
                                 \/ \E l \in Levels : Do([f |-> "log", l |-> l, id |-> Len(sent) + 1])
                                                      /\ sent' = Append(sent, [l |-> l, w |-> S.cur, t |-> S.lvl[S.cur]])
        \/ /\ Emit /\ Len(hist) = MaxLen
           /\ PrintT("HIST@" \o FoldLeft(LAMBDA a, x : a \o ";" \o x, "", hist))
           /\ hist' = Append(hist, "end") /\ UNCHANGED <<S, sent>>
Spec == Init /\ [][Next]_vars
\* exactly the messages at or above the threshold of the writer current at the time, each once, in order
Expected(w) == LET ids == SelectSeq([k \in 1..Len(sent) |-> k], LAMBDA k : sent[k].w = w /\ sent[k].l <= sent[k].t)
               IN [k \in 1..Len(ids) |-> <<sent[ids[k]].l, ids[k]>>]
Delivered == \A w \in 1..Writers : S.out[w] = Expected(w)
\* changing the writer or the threshold delivers nothing and withdraws nothing
Quiet == [][sent' = sent => S'.out = S.out]_vars
=============================================================================
