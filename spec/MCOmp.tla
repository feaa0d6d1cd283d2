------------------------------- MODULE MCOmp --------------------------------
(***************************************************************************)
(* The thread-parallel pattern of assembly and of hierarchical products:   *)
(* threads grab chunks of the leaves (then of the mirrored leaves, without *)
(* waiting in between), accumulate into a private buffer and a private     *)
(* counter, and finally merge both into the shared result, reading and     *)
(* writing it in two separate steps inside a critical section.             *)
(* A result is the number of times each contribution was merged.           *)
(* Behaviours are written as schedules (who moves next), which the driver  *)
(* replays on the real code through a stand-in for the OpenMP runtime.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
CONSTANTS NT, NLeaves, NMirror, Critical, Emit
Threads == 0..(NT - 1)
Jobs == {<<1, l>> : l \in 1..NLeaves} \cup {<<2, l>> : l \in 1..NMirror}
VARIABLES pc, next, temp, reg, out, count, cnt, holder, hist
vars == <<pc, next, temp, reg, out, count, cnt, holder, hist>>
Size(k) == IF k = 1 THEN NLeaves ELSE NMirror
ZeroOut == [j \in Jobs |-> 0]
Init == /\ pc = [t \in Threads |-> "loop1"] /\ next = <<1, 1>>
        /\ temp = [t \in Threads |-> ZeroOut] /\ reg = [t \in Threads |-> ZeroOut]
        /\ out = ZeroOut /\ count = 0 /\ cnt = [t \in Threads |-> 0] /\ holder = -1 /\ hist = <<>>
Moves(t) == hist' = IF Emit THEN Append(hist, t) ELSE hist
LoopNo(p) == IF p = "loop1" THEN 1 ELSE 2
Take(t) == /\ pc[t] \in {"loop1", "loop2"}
           /\ LET k == LoopNo(pc[t]) left == Size(k) - next[k] + 1 IN
              IF left = 0
              THEN /\ pc' = [pc EXCEPT ![t] = IF k = 1 THEN "loop2" ELSE "merge"]
                   /\ UNCHANGED <<next, temp, cnt>>
              ELSE \E c \in 1..left :
                   /\ next' = [next EXCEPT ![k] = @ + c]
                   /\ temp' = [temp EXCEPT ![t] = [j \in Jobs |-> @[j] + (IF j[1] = k /\ j[2] >= next[k] /\ j[2] < next[k] + c THEN 1 ELSE 0)]]
                   /\ cnt' = [cnt EXCEPT ![t] = @ + c]
                   /\ pc' = pc
           /\ Moves(t) /\ UNCHANGED <<reg, out, count, holder>>
Enter(t) == /\ pc[t] = "merge" /\ (Critical => holder = -1)
            /\ holder' = IF Critical THEN t ELSE holder
            /\ pc' = [pc EXCEPT ![t] = "read"] /\ Moves(t) /\ UNCHANGED <<next, temp, reg, out, count, cnt>>
Read(t) == /\ pc[t] = "read" /\ reg' = [reg EXCEPT ![t] = [j \in Jobs |-> out[j] + temp[t][j]]]
           /\ pc' = [pc EXCEPT ![t] = "write"] /\ Moves(t) /\ UNCHANGED <<next, temp, out, count, cnt, holder>>
Write(t) == /\ pc[t] = "write" /\ out' = reg[t] /\ count' = count + cnt[t]
            /\ pc' = [pc EXCEPT ![t] = "leave"] /\ Moves(t) /\ UNCHANGED <<next, temp, reg, cnt, holder>>
Leave(t) == /\ pc[t] = "leave" /\ holder' = IF Critical THEN -1 ELSE holder
            /\ pc' = [pc EXCEPT ![t] = "done"] /\ Moves(t) /\ UNCHANGED <<next, temp, reg, out, count, cnt>>
AllDone == \A t \in Threads : pc[t] = "done"
End == /\ Emit /\ AllDone /\ (Len(hist) = 0 \/ hist[Len(hist)] # 99)
       /\ PrintT("HIST@" \o ToString(NT) \o FoldLeft(LAMBDA a, x : a \o ";" \o ToString(x), "", hist))
       /\ hist' = Append(hist, 99) /\ UNCHANGED <<pc, next, temp, reg, out, count, cnt, holder>>
Next == (\E t \in Threads : Take(t) \/ Enter(t) \/ Read(t) \/ Write(t) \/ Leave(t)) \/ End
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Take(t) \/ Enter(t) \/ Read(t) \/ Write(t) \/ Leave(t))

OneAtATime == Cardinality({t \in Threads : pc[t] \in {"read", "write", "leave"}}) <= 1
ExactlyOnce == AllDone => (\A j \in Jobs : out[j] = 1) /\ count = NLeaves + NMirror
Finishes == <>AllDone
=============================================================================
