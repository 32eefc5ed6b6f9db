-------------------------------- MODULE Spawn --------------------------------
(* One client launching trackers one after the other and side by side: the client's own working directory, its
   descriptors and those of the trackers.  A launch changes to the requested directory, spawns and changes back,
   whether or not the program could be run; the trackers' ends of the streams are closed in the client, the
   client's ends are not passed on.                                                                       *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS N,            \* launches
          Dirs          \* directories that may be requested
VARIABLES cwd, pc, dir, works, next, mine, theirs, alive
vars == << cwd, pc, dir, works, next, mine, theirs, alive >>
\* stream ends are <<launch, name>>; the tracker uses r (its input) and w (its output), the client R and W
Ends(k) == {<<k, e>> : e \in {"r", "w", "e", "R", "W", "E"}}
Own(k) == {<<k, e>> : e \in {"r", "w", "e"}}
Init == cwd = "home" /\ pc = "idle" /\ dir = "" /\ works = TRUE /\ next = 1 /\ mine = {} /\ theirs = [k \in 1..N |-> {}] /\ alive = {}
Begin == pc = "idle" /\ next <= N /\ \E d \in Dirs \cup {""}, b \in BOOLEAN : dir' = d /\ works' = b
         /\ pc' = "pipes" /\ UNCHANGED <<cwd, next, mine, theirs, alive>>
Pipes == pc = "pipes" /\ mine' = mine \cup Ends(next) /\ pc' = "chdir" /\ UNCHANGED <<cwd, dir, works, next, theirs, alive>>
Chdir == pc = "chdir" /\ cwd' = (IF dir = "" THEN cwd ELSE dir) /\ pc' = "spawn" /\ UNCHANGED <<dir, works, next, mine, theirs, alive>>
\* what the child gets: everything that is not marked to be closed, that is the child's ends only
Spawn == /\ pc = "spawn" /\ pc' = "back"
         /\ IF works THEN theirs' = [theirs EXCEPT ![next] = {e \in mine : e[2] \in {"r", "w", "e"}}] /\ alive' = alive \cup {next} ELSE UNCHANGED <<theirs, alive>>
         /\ UNCHANGED <<cwd, dir, works, next, mine>>
Back == pc = "back" /\ cwd' = "home" /\ pc' = "close" /\ UNCHANGED <<dir, works, next, mine, theirs, alive>>
Close == pc = "close" /\ mine' = (IF works THEN mine \ Own(next) ELSE mine \ Ends(next)) /\ pc' = "idle" /\ next' = next + 1 /\ UNCHANGED <<cwd, dir, works, theirs, alive>>
End(k) == pc = "idle" /\ k \in alive /\ alive' = alive \ {k} /\ theirs' = [theirs EXCEPT ![k] = {}] /\ mine' = mine \ Ends(k) /\ UNCHANGED <<cwd, pc, dir, works, next>>
Die(k) == k \in alive /\ alive' = alive \ {k} /\ theirs' = [theirs EXCEPT ![k] = {}] /\ UNCHANGED <<cwd, pc, dir, works, next, mine>>
Next == Begin \/ Pipes \/ Chdir \/ Spawn \/ Back \/ Close \/ \E k \in 1..N : End(k) \/ Die(k)
Home == pc \in {"idle", "pipes", "chdir"} => cwd = "home"
Where == pc = "back" => cwd = (IF dir = "" THEN "home" ELSE dir)
\* every tracker holds its own ends and nothing of another tracker or of the client
Private == \A k \in 1..N : theirs[k] = {} \/ theirs[k] = Own(k)
\* the end of a stream is seen by its other side: the writing end of a dead tracker's output is held by nobody
Ends1 == pc = "idle" => \A k \in 1..N : k \notin alive => \A e \in {<<k, "w">>, <<k, "r">>} : e \notin mine /\ \A j \in 1..N : e \notin theirs[j]
=============================================================================
