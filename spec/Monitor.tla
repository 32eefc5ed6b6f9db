-------------------------------- MODULE Monitor --------------------------------
(* What the client does to processes and descriptors, call by call and in the order it happened: the abstract
   ownership rules of Controller.tla as a monitor of recorded runs.  An event e is [k, t, a, b]: kind, thread,
   process or descriptor, signal / direction / result.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
EBADF == 9
Start == [live |-> {}, reaped |-> {}, use |-> {}, bad |-> 0, why |-> ""]
Bad(m, i, why) == [m EXCEPT !.bad = i, !.why = why]
Move(m, e, i) ==
    CASE e.k = "spawn" -> [m EXCEPT !.live = @ \cup {e.a}, !.reaped = @ \ {e.a}]
      [] e.k = "reap" -> IF e.a \notin m.live THEN Bad(m, i, "a process that is not its child was waited for") ELSE [m EXCEPT !.live = @ \ {e.a}, !.reaped = @ \cup {e.a}]
      [] e.k = "nochild" -> Bad(m, i, "a process was waited for again")
      [] e.k = "kill" -> IF e.a \notin m.live THEN Bad(m, i, "a signal was sent to a process that is gone") ELSE m
      [] e.k = "use" -> IF \E u \in m.use : u[2] = e.a /\ u[1] # e.t THEN Bad(m, i, "a stream is used by two threads at once") ELSE [m EXCEPT !.use = @ \cup {<<e.t, e.a>>}]
      [] e.k = "done" -> IF e.b = -EBADF THEN Bad(m, i, "a closed stream was used") ELSE [m EXCEPT !.use = @ \ {<<e.t, e.a>>}]
      [] e.k = "close" -> IF \E u \in m.use : u[2] = e.a THEN Bad(m, i, "a stream was closed while it was used") ELSE m
      [] e.k = "end" -> IF m.live # {} THEN Bad(m, i, "a process was never waited for") ELSE m
      [] e.k = "badclose" -> Bad(m, i, "a stream was closed twice")
      [] OTHER -> m
RECURSIVE Watch(_, _, _)
\* the record of a whole run ends with "end"
Watch(m, h, i) == IF m.bad # 0 THEN m ELSE IF i > Len(h) THEN m ELSE Watch(Move(m, h[i], i), h, i + 1)
Verdict(h) == LET m == Watch(Start, h, 1) IN [bad |-> m.bad, why |-> m.why]
=============================================================================
