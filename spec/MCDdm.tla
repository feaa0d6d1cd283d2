------------------------------- MODULE MCDdm --------------------------------
(***************************************************************************)
(* Overlapping subdomains and their exchange, over all small layouts and   *)
(* all interleavings.  A value held for an unknown is written as the bag   *)
(* of subdomain contributions it is the sum of.  Checked: after a product  *)
(* or a restricted preconditioner every process that knows an unknown      *)
(* holds exactly its owner's contribution; after the symmetric one, the    *)
(* sum of all contributions; nobody waits for ever; the owners' weights    *)
(* are a partition of unity.  With Emit, layouts and programs of calls on  *)
(* a solver object are written (HIST@) for the driver to replay.           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS NPs, Ns, Kinds, MaxOps, Emit
VARIABLES np, sizes, ovl, ready, \* layout: parts, and per process the positions it sees beyond its own
          kind, val, sent, got,  \* one exchange
          prog, fact, coarse     \* calls on the solver object
vars == <<np, sizes, ovl, ready, kind, val, sent, got, prog, fact, coarse>>
Procs == 1..np
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Off(p) == Sum(SubSeq(sizes, 1, p - 1))
Own(p) == (Off(p) + 1)..(Off(p) + sizes[p])
N == Sum(sizes)
Owner(u) == CHOOSE p \in Procs : u \in Own(p)
SubD(p) == Own(p) \cup ovl[p]
Shared(p, q) == SubD(p) \cap SubD(q)
Neighbours(p) == {q \in Procs \ {p} : Shared(p, q) # {}}
None == [q \in Procs |-> 0]
Only(p) == [None EXCEPT ![p] = 1]
Plus(a, b) == [q \in Procs |-> a[q] + b[q]]

Init == /\ np \in NPs /\ sizes = <<>> /\ ovl = <<>> /\ ready = FALSE /\ kind = "none"
        /\ val = <<>> /\ sent = <<>> /\ got = <<>> /\ prog = <<>> /\ fact = FALSE /\ coarse = FALSE
Part == /\ Len(sizes) < np /\ \E s \in 1..3 : sizes' = Append(sizes, s)
        /\ UNCHANGED <<np, ovl, ready, kind, val, sent, got, prog, fact, coarse>>
Overlap == /\ Len(sizes) = np /\ N \in Ns /\ Len(ovl) < np
           /\ \E S \in SUBSET ((1..N) \ Own(Len(ovl) + 1)) : ovl' = Append(ovl, S)
           /\ UNCHANGED <<np, sizes, ready, kind, val, sent, got, prog, fact, coarse>>
Ready == /\ Len(ovl) = np /\ ~ready /\ ready' = TRUE
         /\ sent' = [p \in Procs |-> <<>>] /\ got' = [p \in Procs |-> {}] /\ val' = [p \in Procs |-> <<>>]
         /\ kind' \in (IF Emit THEN {"none"} ELSE Kinds)
         /\ UNCHANGED <<np, sizes, ovl, prog, fact, coarse>>
\* what a process has before it exchanges: product rows of its own unknowns and nothing elsewhere; or the solution
\* of its local problem, scaled by the partition of unity (restricted) or as it is (symmetric)
Compute(p) == /\ ready /\ ~Emit /\ val[p] = <<>>
              /\ val' = [val EXCEPT ![p] = [u \in SubD(p) |-> IF kind = "asm" THEN Only(p) ELSE IF u \in Own(p) THEN Only(p) ELSE None]]
              /\ UNCHANGED <<np, sizes, ovl, ready, kind, sent, got, prog, fact, coarse>>
Send(p) == /\ ready /\ ~Emit /\ val[p] # <<>> /\ sent[p] = <<>>
           /\ sent' = [sent EXCEPT ![p] = [q \in Procs |-> [u \in Shared(p, q) |-> val[p][u]]]]
           /\ UNCHANGED <<np, sizes, ovl, ready, kind, val, got, prog, fact, coarse>>
Receive(p, q) == /\ ready /\ ~Emit /\ sent[p] # <<>> /\ sent[q] # <<>> /\ q \in Neighbours(p) \ got[p]
                 /\ val' = [val EXCEPT ![p] = [u \in SubD(p) |-> IF u \in Shared(p, q) THEN Plus(@[u], sent[q][p][u]) ELSE @[u]]]
                 /\ got' = [got EXCEPT ![p] = @ \cup {q}]
                 /\ UNCHANGED <<np, sizes, ovl, ready, kind, sent, prog, fact, coarse>>
Done(p) == sent[p] # <<>> /\ got[p] = Neighbours(p)
Finished == ready /\ \A p \in Procs : Done(p)

\* calls on a solver object (identical on all processes)
Call == /\ ready /\ Emit /\ Len(prog) < MaxOps
        /\ \/ ~fact /\ prog' = Append(prog, "factor") /\ fact' = TRUE /\ coarse' = coarse
           \/ ~coarse /\ \E k \in 0..1 : prog' = Append(prog, "coarse" \o ToString(k)) /\ coarse' = TRUE /\ fact' = fact
           \/ prog' = Append(prog, "infos") /\ UNCHANGED <<fact, coarse>>
           \/ fact /\ \E m \in 1..3 : prog' = Append(prog, "local" \o ToString(m)) /\ UNCHANGED <<fact, coarse>>
           \/ \E m \in 1..3 : prog' = Append(prog, "solve.none.none." \o ToString(m)) /\ UNCHANGED <<fact, coarse>>
           \/ fact /\ \E m \in 1..3, w \in {"ras", "asm"}, c \in {"none"} \cup (IF coarse THEN {"additive", "deflated", "balanced"} ELSE {}) :
                prog' = Append(prog, "solve." \o w \o "." \o c \o "." \o ToString(m)) /\ UNCHANGED <<fact, coarse>>
        /\ UNCHANGED <<np, sizes, ovl, ready, kind, val, sent, got>>
Nums(S) == FoldLeft(LAMBDA a, x : a \o ToString(x) \o ",", "", SetToSortSeq(S, <))
Write == /\ ready /\ Emit /\ Len(prog) = MaxOps /\ kind # "written"
         /\ PrintT("HIST@" \o FoldLeft(LAMBDA a, x : a \o ToString(x) \o ",", "", sizes)
                   \o ";" \o FoldLeft(LAMBDA a, S : a \o Nums(S) \o "|", "", ovl)
                   \o ";" \o FoldLeft(LAMBDA a, x : a \o x \o ",", "", prog))
         /\ kind' = "written" /\ UNCHANGED <<np, sizes, ovl, ready, val, sent, got, prog, fact, coarse>>
Next == Part \/ Overlap \/ Ready \/ (\E p \in Procs : Compute(p) \/ Send(p) \/ \E q \in Procs : Receive(p, q)) \/ Call \/ Write
Spec == Init /\ [][Next]_vars

Expected(u) == IF kind = "asm" THEN [q \in Procs |-> IF u \in SubD(q) THEN 1 ELSE 0] ELSE Only(Owner(u))
Right == (ready /\ ~Emit) => \A p \in Procs : Done(p) => \A u \in SubD(p) : val[p][u] = Expected(u)
NoStall == (ready /\ ~Emit) => (Finished \/ \E p \in Procs : ENABLED Compute(p) \/ ENABLED Send(p) \/ \E q \in Procs : ENABLED Receive(p, q))
Unity == (ready /\ ~Emit) => \A u \in 1..N : Cardinality({p \in Procs : u \in Own(p)}) = 1
\* nobody ever holds a contribution twice
Once == (ready /\ ~Emit) => \A p \in Procs : val[p] # <<>> => \A u \in SubD(p), q \in Procs : val[p][u][q] <= 1
=============================================================================
