----------------------------- MODULE TraceBase ------------------------------
(* Reading a trace recorded from the implementation (ndjson, one event per line). *)
EXTENDS LinAlg, Json, IOUtils
Log == TLCEval(ndJsonDeserialize(IOEnv.VTRACE))
LogLen == Len(Log)
\* Every trace acceptor is a deterministic walk through Log; an event that no action of the
\* specification explains is reported with the names of the violated clauses.
Report(i, e, clauses) ==
    IF clauses = {} THEN TRUE
    ELSE PrintT("REJECT@" \o ToString(i) \o "@" \o ToString(e.op) \o "@" \o ToString(clauses))
Finished(i) == PrintT("DONE@" \o ToString(i))
Has(e, f) == f \in DOMAIN e
=============================================================================
