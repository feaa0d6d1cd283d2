----------------------------- MODULE TrLogging -------------------------------
(* Acceptor for traces of d_log (G01).  Writers named in the case event as "own" are written by a user of
   the library and admit every message; the others are the writer the library provides. *)
EXTENDS Logging, TraceBase
VARIABLES i, S
vars == <<i, S>>
E == Log[i]
Step(op) == i <= LogLen /\ E.op = op /\ i' = i + 1
Init == i = 1 /\ S = [cur |-> 0, lvl |-> <<>>, out |-> <<>>]
Case == Step("case") /\ S' = [cur |-> 1, lvl |-> E.lvl, out |-> [w \in 1..Len(E.lvl) |-> <<>>]]
Prefix(l) == CASE l = 0 -> "[Htool critical] " [] l = 10 -> "[Htool error]    " [] l = 20 -> "[Htool warning]  "
               [] l = 30 -> "[Htool debug]    " [] l = 40 -> "[Htool info]     "
\* got: per writer what appeared since the last event, as [lvl, text] (library writers: the printed line)
Put == /\ Step("act")
       /\ LET T == Effect(S, E)
              New(w) == SubSeq(T.out[w], Len(S.out[w]) + 1, Len(T.out[w]))
          IN Report(i, E, UNION {
                LET n == New(w) g == E.got[w] IN
                IF Len(g) # Len(n) THEN {IF Len(g) > Len(n) THEN "a message that should not be delivered" ELSE "a message was lost"}
                ELSE UNION {Clause("text or level of a message", g[k] = Prefix(n[k][1]) \o E.text) : k \in 1..Len(n)} : w \in DOMAIN S.out})
             /\ S' = T
Stop == i = LogLen + 1 /\ Finished(i - 1) /\ i' = i + 1 /\ S' = S
Next == Case \/ Put \/ Stop
Spec == Init /\ [][Next]_vars
=============================================================================
