------------------------------ MODULE SuperviseMC ------------------------------
(* All histories of a controller with trackers that fail in every way, up to the bounds. *)
EXTENDS Supervise, TLC, Json
CONSTANTS MaxN, MaxL, MaxK, MaxOps, Mode
VARIABLES plan, w, hist, res, was
T == 1000  A == 4000
Faults == {[at |-> "pre", k |-> 0, cls |-> x] : x \in {"end", "eof", "gone", "mute", "bad", "quit"} \cup (IF Mode = 2 THEN {"late"} ELSE {})}
          \cup {[at |-> "post", k |-> 0, cls |-> x] : x \in {"end", "eof", "gone", "mute", "bad", "quit", "quitstay"}}
          \cup {[at |-> y, k |-> j, cls |-> x] : y \in {"req", "ans"}, j \in 1..MaxK, x \in {"end", "eof", "gone", "mute", "bad", "quit", "quitstay"}}
C == [T |-> T, A |-> A, m |-> Mode, P |-> plan]
\* what matters of a situation for the next operation
Class(v) == << v.p, v.s, v.t, Cls(C, v), v.a < v.n >>
Init == /\ was = <<>> /\ plan \in {<<f>> : f \in Faults \cup {Fine}} \cup {<<f, f>> : f \in Faults} /\ w = None /\ hist = <<>> /\ res = [out |-> "-", op |-> "-", lo |-> 0, hi |-> 0]
Step(op) == \E o \in Succ(C, w, op) : w' = o.w /\ hist' = Append(hist, op) /\ res' = [out |-> o.out, op |-> op, lo |-> o.lo, hi |-> o.hi] /\ plan' = plan /\ was' = Class(w)
Next == \E op \in Ops : Step(op)
Limit == w.n <= MaxN /\ w.L <= MaxL /\ Len(hist) <= MaxOps
View == << plan, w, res.op, res.out, was >>
Emit == hist # <<>> => PrintT(<<"S", ToJson([P |-> plan, h |-> hist, o |-> res.out, c |-> was])>>)
\* ---- what the user relies on
Possible == \A op \in Ops : Succ(C, w, op) # {}
Bounded == res.hi <= 2 * (T + 2 * A) \/ res.op \in {"sleep", "callback", "kill", "freeze"}
\* failing communication leaves no process, unless the tracker itself said quit
Gone == res.out = "false" /\ res.op \in {"wait", "frame", "bigframe", "init"} => w.p = "none" \/ w.s = "shut"
\* exceptions of launches leave no process
Clean == res.out = "throw" /\ res.op \in {"query", "reset"} => w.p = "none"
\* a tracker that answers is never given up
Kept == \A o \in Wait(C, w) : o.out = "true" \/ Fired(C, w) \/ w.f # "" \/ w.p # "run" \/ w.a = w.n \/ ~w.t
\* the controller can always be brought to work again once the launched trackers are fine
Renewed == w.L >= Len(plan) => \A o \in Succ(C, w, "reset") : o.out = "true" /\ o.w.p = "run" /\
              \A q \in Succ(C, o.w, "init") : q.out = "true" /\ (\A r \in Succ(C, q.w, "wait") : r.out = "true")
=============================================================================
