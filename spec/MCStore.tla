------------------------------ MODULE MCStore -------------------------------
(***************************************************************************)
(* Matrices as values: a store of named objects, each owning one buffer,   *)
(* under construction, copy, assignment, move, mutation and destruction.   *)
(* Checked: no two live objects share a buffer, no buffer is lost, and an  *)
(* operation changes the value of the object it names and of no other.     *)
(* Every behaviour also writes its history, which the driver replays on    *)
(* the real classes (lines HIST@...).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS NSlots, Kinds, MaxLen, Prelude, Emit
Slots == 1..NSlots
VARIABLES slot, heap, fresh, hist
vars == <<slot, heap, fresh, hist>>
None == [live |-> FALSE, kind |-> "", buf |-> 0]
Live == {s \in Slots : slot[s].live}
Value(s) == IF slot[s].live THEN <<slot[s].kind, heap[slot[s].buf]>> ELSE <<"none">>
Without(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]
With(f, k, v) == [n \in DOMAIN f \cup {k} |-> IF n = k THEN v ELSE f[n]]
Owned(s) == IF slot[s].live THEN {slot[s].buf} ELSE {}

Init == slot = [s \in Slots |-> None] /\ heap = <<>> /\ fresh = 1 /\ hist = <<>>
Log(x) == hist' = Append(hist, x)
Factored(s) == \E k \in 1..Len(heap[slot[s].buf]) : heap[slot[s].buf][k] = "factor"

Build(s, k) == /\ ~slot[s].live
               /\ slot' = [slot EXCEPT ![s] = [live |-> TRUE, kind |-> k, buf |-> fresh]]
               /\ heap' = With(heap, fresh, <<>>) /\ fresh' = fresh + 1
               /\ Log("build:" \o ToString(s) \o ":" \o k)
\* d becomes a deep copy of s; whatever d owned is released
CopyTo(d, s, name) == /\ slot[s].live
                /\ slot' = [slot EXCEPT ![d] = [live |-> TRUE, kind |-> slot[s].kind, buf |-> fresh]]
                /\ heap' = Without(With(heap, fresh, heap[slot[s].buf]), Owned(d)) /\ fresh' = fresh + 1
                /\ Log(name \o ":" \o ToString(d) \o ":" \o ToString(s))
CopyConstruct(d, s) == ~slot[d].live /\ CopyTo(d, s, "cc")
Assign(d, s) == /\ slot[d].live /\ slot[s].live
                /\ IF d = s THEN UNCHANGED <<slot, heap, fresh>> /\ Log("assign:" \o ToString(d) \o ":" \o ToString(s))
                   ELSE CopyTo(d, s, "assign")
MoveTo(d, s, name) == /\ slot[s].live /\ d # s
                /\ slot' = [slot EXCEPT ![d] = slot[s], ![s] = None]
                /\ heap' = Without(heap, Owned(d)) /\ UNCHANGED fresh
                /\ Log(name \o ":" \o ToString(d) \o ":" \o ToString(s))
MoveConstruct(d, s) == ~slot[d].live /\ MoveTo(d, s, "mc")
MoveAssign(d, s) == slot[d].live /\ MoveTo(d, s, "massign")
\* the settings of an object (tolerance, admissibility parameter, depth limits) belong to its value
Mutate(s, op) == /\ slot[s].live /\ (~Factored(s) \/ op = "tune") /\ (op = "factor" => slot[s].kind # "lr")
                 /\ heap' = [heap EXCEPT ![slot[s].buf] = Append(@, op)] /\ UNCHANGED <<slot, fresh>>
                 /\ Log(op \o ":" \o ToString(s) \o ":0")
Drop(s) == /\ slot[s].live
           /\ slot' = [slot EXCEPT ![s] = None] /\ heap' = Without(heap, Owned(s)) /\ UNCHANGED fresh
           /\ Log("drop:" \o ToString(s) \o ":0")
Write == /\ Emit /\ Len(hist) = MaxLen
         /\ PrintT("HIST@" \o FoldLeft(LAMBDA a, x : a \o ";" \o x, "", hist))
         /\ hist' = Append(hist, "end") /\ UNCHANGED <<slot, heap, fresh>>
Step == /\ Len(hist) < MaxLen
        /\ IF Len(hist) < Prelude THEN \E k \in Kinds : Build(Len(hist) + 1, k)
           ELSE \/ \E s \in Slots : (\E k \in Kinds : Build(s, k)) \/ (\E op \in {"scale", "add", "factor", "tune"} : Mutate(s, op)) \/ Drop(s)
                \/ \E d \in Slots, s \in Slots : CopyConstruct(d, s) \/ Assign(d, s) \/ MoveConstruct(d, s) \/ MoveAssign(d, s)
Next == Step \/ Write
Spec == Init /\ [][Next]_vars

NoAlias == \A a \in Live, b \in Live : a # b => slot[a].buf # slot[b].buf
NoLoss == DOMAIN heap = {slot[s].buf : s \in Live}
\* frame: a step changes at most the object its history entry names (a move also empties its source)
Names(x) == {s \in Slots : \E op \in {"build", "cc", "assign", "mc", "massign", "scale", "add", "factor", "tune", "drop"}, y \in Slots \cup {0} :
                x = op \o ":" \o ToString(s) \o ":" \o ToString(y)} 
Frame == [][\A s \in Slots : (Value(s)' # Value(s)) =>
             \/ \E k \in Kinds : hist'[Len(hist')] = "build:" \o ToString(s) \o ":" \o k
             \/ s \in Names(hist'[Len(hist')])
             \/ \E d \in Slots : hist'[Len(hist')] \in {"mc:" \o ToString(d) \o ":" \o ToString(s), "massign:" \o ToString(d) \o ":" \o ToString(s)}]_vars
Faithful == [][\A d \in Slots, s \in Slots :
             /\ hist'[Len(hist')] \in {"cc:" \o ToString(d) \o ":" \o ToString(s), "assign:" \o ToString(d) \o ":" \o ToString(s)} => Value(d)' = Value(s) /\ Value(s)' = Value(s)
             /\ hist'[Len(hist')] \in {"mc:" \o ToString(d) \o ":" \o ToString(s), "massign:" \o ToString(d) \o ":" \o ToString(s)} => Value(d)' = Value(s)]_vars
=============================================================================
