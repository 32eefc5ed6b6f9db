------------------------------- MODULE Supervise -------------------------------
(* What the user of a tracker process controller can observe: outcome and duration of every operation and the
   processes left, for a tracker that may fail in any way at any point of the session.  The client cannot know
   everything about the tracker, so a history is judged against the set of situations it allows.
     c    the setting: T timeout (ms), A allowance for disposal (ms), m connection mode, P plans of the launches
     plan what a launched tracker does: at "never" / "pre" (before the hello) / "post" (after it) / "req" (instead
          of the answer to request k) / "ans" (after that answer), and then cls
            "end"   it ends             "quit"      it says quit and ends
            "eof"   closes its output   "quitstay"  it says quit and stays, not reading
            "gone"  closes everything   "bad"       writes an invalid message and stays, not reading
            "mute"  stays, silent, half a message, flooding or spinning, not reading
            "late"  ends before it connects (sockets)
     w    a situation: p process "none" / "run" / "end" (ended or about to end), s the session "open" / "shut"
          (a quit message was received), t tracking, n requests sent, a answers received, L launches,
          f "" / "killed" / "frozen" (by a third party), z the tracker had time to do what it does     *)
EXTENDS Integers, Sequences, FiniteSets
Fine == [at |-> "never", k |-> 0, cls |-> "mute"]
Plan(c, L) == IF L = 0 THEN Fine ELSE IF L <= Len(c.P) THEN c.P[L] ELSE Fine
None == [p |-> "none", s |-> "open", t |-> FALSE, n |-> 0, a |-> 0, L |-> 0, f |-> "", z |-> TRUE]
O(out, lo, hi, w) == [out |-> out, lo |-> lo, hi |-> hi, w |-> w]
Lower(a, b) == IF a < b THEN a ELSE b
Pl(c, w) == Plan(c, w.L)
Fired(c, w) == LET p == Pl(c, w) IN p.at = "post" \/ (p.at \in {"req", "ans"} /\ w.n >= p.k)
\* answers the tracker gives to the requests sent so far
Avail(c, w) == LET p == Pl(c, w) IN CASE p.at = "req" -> Lower(w.n, p.k - 1) [] p.at = "ans" -> Lower(w.n, p.k) [] p.at = "post" -> 0 [] OTHER -> w.n
Ends(c, w) == Fired(c, w) /\ Pl(c, w).cls \in {"end", "quit"}
Did(c, w) == IF Fired(c, w) THEN Pl(c, w).cls ELSE "idle"
Cls(c, w) == IF w.f = "killed" THEN "killed" ELSE IF w.f = "frozen" THEN "mute" ELSE Did(c, w)
Disposed(w) == [w EXCEPT !.p = "none", !.z = TRUE, !.f = ""]
\* time of an operation that runs into the timeout, of one that does not
Late(c, out, w) == O(out, c.T - 150, c.T + c.A, w)
Soon(c, out, w) == O(out, 0, c.A, w)
InTime(c, out, w) == O(out, 0, c.T + c.A, w)

\* ---- launching
Fresh(c, w) == [None EXCEPT !.p = "run", !.L = w.L + 1, !.z = FALSE]
Launch(c, w) ==
    LET p == Plan(c, w.L + 1)  v == Fresh(c, w)  no == [Disposed(v) EXCEPT !.t = FALSE] IN
    IF p.at = "pre" THEN IF p.cls = "mute" THEN {O("throw", c.T - 150, c.T + 2 * c.A, no)}
                         ELSE IF p.cls = "late" THEN {O("throw", 0, c.T + 2 * c.A, no)}
                         ELSE {O("throw", 0, 2 * c.A, no)}
    ELSE IF p.at = "post" /\ p.cls \in {"end", "quit"} THEN {O("throw", 0, 2 * c.A, no), O("true", 0, c.T + c.A, [v EXCEPT !.p = "end"])}
    ELSE {O("true", 0, c.T + c.A, v)}
Query(c, w) == IF w.p = "run" THEN {Soon(c, "false", w)}
               ELSE (IF w.p = "end" THEN {Soon(c, "false", w)} ELSE {}) \cup Launch(c, w)
Reset(c, w) == {[o EXCEPT !.hi = @ + c.A] : o \in Launch(c, w)}

\* ---- the session; ready: the process has not been seen to end and the session is open
Unready(w) == (IF w.p \in {"none", "end"} THEN {Disposed(w)} ELSE {}) \cup (IF w.p # "none" /\ w.s = "shut" THEN {w} ELSE {})
Readys(w) == IF w.p # "none" /\ w.s = "open" THEN {w} ELSE {}
Throws(c, w) == {Soon(c, "throw", v) : v \in Unready(w)}
\* a request was sent (or seemed to be)
Sent(c, w) == LET v == [w EXCEPT !.n = @ + 1, !.t = TRUE, !.z = FALSE] IN
              Soon(c, "true", IF Ends(c, v) /\ v.f = "" THEN [v EXCEPT !.p = "end"] ELSE v)
Broken(c, w) == Soon(c, "false", [Disposed(w) EXCEPT !.t = FALSE])
\* the streams of the tracker may already be closed / are certainly closed
MayBreak(c, w) == w.p = "end" \/ (w.f = "frozen" /\ Did(c, w) \in {"gone", "eof"}) \/ Cls(c, w) \in {"gone", "killed", "end", "quit"} \/ (c.m = 2 /\ Cls(c, w) = "eof")
MustBreak(c, w) == w.z /\ c.m # 2 /\ Cls(c, w) = "gone"
Small(c, w) == (IF MayBreak(c, w) THEN {Broken(c, w)} ELSE {}) \cup (IF MustBreak(c, w) THEN {} ELSE {Sent(c, w)})
\* a request that is larger than what the streams hold: the tracker has to read
Reads(c, w) == w.f = "" /\ ~Fired(c, w)
Big(c, w) == (IF MayBreak(c, w) THEN {Broken(c, w)} ELSE {})
             \cup (IF Reads(c, w) THEN {[Sent(c, w) EXCEPT !.hi = c.T + c.A]} ELSE {})
             \cup (IF Reads(c, w) \/ MustBreak(c, w) \/ Cls(c, w) \in {"end", "quit", "killed"} THEN {} ELSE {Late(c, "false", [Disposed(w) EXCEPT !.t = FALSE])})
Frame(c, w, Send(_, _)) == Throws(c, w) \cup UNION {IF v.t THEN Send(c, v) ELSE {Soon(c, "throw", v)} : v \in Readys(w)}
Init1(c, w, Send(_, _)) ==
    UNION {IF o.out = "throw" THEN {o} ELSE {[q EXCEPT !.hi = @ + o.hi] : q \in Throws(c, o.w) \cup UNION {Send(c, v) : v \in Readys(o.w)}} : o \in Query(c, w)}
Wait1(c, w) ==
    LET no == [Disposed(w) EXCEPT !.t = FALSE]
        mute == {Late(c, "false", no)}
        eof == {Soon(c, "false", no)}
        said(p) == {Soon(c, "false", [w EXCEPT !.p = p, !.s = "shut", !.t = FALSE])} IN
    IF ~w.t THEN {Soon(c, "throw", w)}
    ELSE IF w.a < Avail(c, w) THEN {InTime(c, "true", [w EXCEPT !.a = @ + 1])} \cup (IF w.f = "frozen" THEN mute ELSE IF w.f = "killed" THEN eof ELSE {})
    ELSE LET by(x) == CASE x \in {"idle", "mute"} -> mute [] x = "quit" -> said("end") [] x = "quitstay" -> said("run") [] x = "killed" -> eof \cup said("end") [] OTHER -> eof IN
         \* what a frozen tracker did before it was frozen may be on the way
         by(Cls(c, w)) \cup (IF w.f = "frozen" THEN by(Did(c, w)) ELSE {})
Wait(c, w) == Throws(c, w) \cup UNION {Wait1(c, v) : v \in Readys(w)}
\* the user's callback asks for an end during the wait (300 ms after its start)
Cut(c, w) == {[o EXCEPT !.lo = IF o.lo > 0 THEN Lower(o.lo, 250) ELSE 0, !.w = Disposed(o.w)] : o \in Wait(c, w)}

\* ---- looking at the controller
Ready(c, w) == {Soon(c, "false", v) : v \in Unready(w)} \cup {Soon(c, "true", v) : v \in Readys(w)}
Tracking(c, w) == {Soon(c, "false", v) : v \in Unready(w)} \cup {Soon(c, IF v.t THEN "true" ELSE "false", v) : v \in Readys(w)}
\* ---- the environment
Settle(w) == IF w.p = "end" THEN Disposed(w) ELSE [w EXCEPT !.z = TRUE]
Sleep(c, w) == {O("true", 0, 100000, Settle(w))}
Callback(c, w) == {O("true", 0, 100000, Disposed(w))}
Kill(c, w) == {O("true", 0, 100000, IF w.p = "none" THEN w ELSE [w EXCEPT !.p = "end", !.f = "killed"])}
\* a tracker that is about to end may be stopped before it does
Freeze(c, w) == {O("true", 0, 100000, v) : v \in IF w.p = "none" \/ w.f = "killed" THEN {w}
                                                ELSE {[w EXCEPT !.f = "frozen"], [w EXCEPT !.f = "frozen", !.p = "run"]}}
Kids(w) == CASE w.p = "none" -> {0} [] w.p = "run" -> {1} [] OTHER -> {0, 1}

Ops == {"query", "init", "frame", "wait", "bigframe", "reset", "ready", "tracking", "sleep", "callback", "cwait", "kill", "freeze"}
Succ(c, w, op) ==
    CASE op = "query" -> Query(c, w) [] op = "init" -> Init1(c, w, Small) [] op = "biginit" -> Init1(c, w, Big)
      [] op = "frame" -> Frame(c, w, Small) [] op = "bigframe" -> Frame(c, w, Big)
      [] op = "wait" -> Wait(c, w) [] op = "cwait" -> Cut(c, w) [] op = "reset" -> Reset(c, w) [] op = "ready" -> Ready(c, w) [] op = "tracking" -> Tracking(c, w)
      [] op = "sleep" -> Sleep(c, w) [] op = "callback" -> Callback(c, w) [] op = "kill" -> Kill(c, w) [] op = "freeze" -> Freeze(c, w)
\* ---- judging a recorded history: e = [op, out, ms, kids (-1: not looked at)]
After(c, W, e) == {o.w : o \in {o \in UNION {Succ(c, w, e.op) : w \in W} : o.out = e.out /\ o.lo <= e.ms /\ e.ms <= o.hi /\ (e.kids >= 0 => e.kids \in Kids(o.w))}}
RECURSIVE Judge(_, _, _, _)
Judge(c, W, h, i) == IF i > Len(h) THEN [bad |-> 0, W |-> W, can |-> {}]
                     ELSE LET V == After(c, W, h[i]) IN
                          IF V = {} THEN [bad |-> i, W |-> W, can |-> {[out |-> o.out, lo |-> o.lo, hi |-> o.hi, kids |-> Kids(o.w)] : o \in UNION {Succ(c, w, h[i].op) : w \in W}}]
                          ELSE Judge(c, V, h, i + 1)
Verdict(c, h) == Judge(c, {None}, h, 1)
=============================================================================
