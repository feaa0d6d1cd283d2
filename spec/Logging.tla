------------------------------ MODULE Logging --------------------------------
(***************************************************************************)
(* The logger forwards messages to one current writer; the threshold       *)
(* belongs to the writer that is current when it is set.                   *)
(*   cur : the current writer, lvl : writer -> threshold,                  *)
(*   out : writer -> messages delivered so far, as <<severity, id>>        *)
(***************************************************************************)
EXTENDS Integers, Sequences
Effect(S, e) ==
    CASE e.f = "writer" -> [S EXCEPT !.cur = e.w]
      [] e.f = "level" -> [S EXCEPT !.lvl[S.cur] = e.l]
      [] e.f = "log" -> IF e.l <= S.lvl[S.cur] THEN [S EXCEPT !.out[S.cur] = Append(@, <<e.l, e.id>>)] ELSE S
=============================================================================
