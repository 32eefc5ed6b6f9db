------------------------------ MODULE Controller ------------------------------
(* The tracker process controller as a concurrent system: the calling thread, the supervising thread (watchdog)
   and the tracker process.  Starting, supervising and disposing of the process share one lock; the streams of
   the tracker belong to the calling thread as long as it is within a call.                              *)
EXTENDS Integers, FiniteSets
CONSTANTS T,            \* timeout in ticks of the watchdog (0: none)
          Launches,     \* processes that may be started
          Calls,        \* operations of the caller
          Careless      \* TRUE: the watchdog uses the streams no matter who owns them (a wrong design, for comparison)
VARIABLES lock,         \* "none", "m" (caller), "w" (watchdog)
          obj,          \* a process object exists
          os,           \* the process: "none", "run", "zombie"
          will,         \* how the process behaves: "nice" ends on request, "firm" ends on SIGTERM, "stubborn" on SIGKILL only
          talk,         \* what it does with the session: "answer", "mute", "deaf" (does not read)
          cl,           \* the session: "none", "open", "ended" (the streams are not used any more)
          calling, wdt, \* the caller is within a call, ticks left for it
          mpc, wpc, mt, wt,   \* program counters; steps of a termination
          op, res,      \* operation of the caller and its result
          ticks,        \* ticks of the watchdog since the call began
          launches, calls, flag, why
vars == << lock, obj, os, will, talk, cl, calling, wdt, mpc, wpc, mt, wt, op, res, ticks, launches, calls, flag, why >>
mainv == << mpc, mt, op, res, calls >>
wv == << wpc, wt >>
envv == << will, talk >>
Init == /\ lock = "none" /\ obj = FALSE /\ os = "none" /\ will = "nice" /\ talk = "answer" /\ cl = "none"
        /\ calling = FALSE /\ wdt = 0 /\ mpc = "idle" /\ wpc = "sleep" /\ mt = "-" /\ wt = "-" /\ op = "-" /\ res = "-"
        /\ ticks = 0 /\ launches = 0 /\ calls = 0 /\ flag = FALSE /\ why = "-"

\* ---- the tracker and the user's callback (environment)
Die == os = "run" /\ os' = "zombie" /\ UNCHANGED << lock, obj, cl, calling, wdt, ticks, launches, flag, why >> /\ UNCHANGED envv /\ UNCHANGED mainv /\ UNCHANGED wv
Change == /\ os = "run" /\ \E t \in {"answer", "mute", "deaf"} : talk' = t
          /\ UNCHANGED << lock, obj, os, will, cl, calling, wdt, ticks, launches, flag, why >> /\ UNCHANGED mainv /\ UNCHANGED wv
Raise == ~flag /\ flag' = TRUE /\ UNCHANGED << lock, obj, os, cl, calling, wdt, ticks, launches, why >> /\ UNCHANGED envv /\ UNCHANGED mainv /\ UNCHANGED wv

\* ---- termination, by thread t ("m"/"w"), with the lock held; pc/step of the thread in (x, x')
\* every look at the process reaps it if it ended
Reaped(o) == IF o = "zombie" THEN "none" ELSE o
Quit(t, x) == /\ x = "quit"
              /\ os' = (IF cl = "open" /\ (~calling \/ Careless) /\ talk # "deaf" /\ will = "nice" /\ os = "run" THEN "zombie" ELSE os)
TermSig(x) == x = "term" /\ os' = Reaped(IF os = "run" /\ will = "firm" THEN "zombie" ELSE os)
KillSig(x) == x = "kill" /\ os' = Reaped(IF os = "run" THEN "zombie" ELSE os)
StepOf(x) == CASE x = "quit" -> "look" [] x = "look" -> "term" [] x = "term" -> "kill" [] x = "kill" -> "close" [] x = "close" -> "end"

\* ---- the caller
Keep == UNCHANGED envv /\ UNCHANGED wv
Pick == /\ mpc = "idle" /\ calls < Calls /\ \E o \in {"start", "call", "stop", "reset"} : /\ op' = o /\ mpc' = (IF o = "start" THEN "s-lock" ELSE IF o = "call" THEN "c-ready" ELSE "x-lock")
        /\ calls' = calls + 1 /\ res' = "-" /\ mt' = "-" /\ UNCHANGED << lock, obj, os, cl, calling, wdt, ticks, launches, flag, why >> /\ Keep
Lock(from, to) == mpc = from /\ lock = "none" /\ lock' = "m" /\ mpc' = to /\ UNCHANGED << obj, os, cl, calling, wdt, ticks, launches, flag, why, mt, op, res, calls >> /\ Keep
Done(r) == mpc' = "idle" /\ res' = r
\* start
SCheck == /\ mpc = "s-check"
          /\ os' = Reaped(os)
          /\ IF obj /\ os = "run" THEN lock' = "none" /\ Done("running") /\ mt' = "-"
             ELSE lock' = lock /\ res' = res /\ IF obj THEN mpc' = "t" /\ mt' = "quit" ELSE mpc' = "s-spawn" /\ mt' = "-"
          /\ UNCHANGED << obj, cl, calling, wdt, ticks, launches, flag, why, op, calls >> /\ Keep
SSpawn == /\ mpc = "s-spawn" /\ launches < Launches /\ obj' = TRUE /\ cl' = "none" /\ os' = "run" /\ launches' = launches + 1
          /\ calling' = ~Careless /\ wdt' = (IF Careless THEN 0 ELSE T) /\ ticks' = 0    \* from here on its streams belong to the caller
          /\ (will' \in {"nice", "firm", "stubborn"}) /\ (talk' \in {"answer", "mute", "deaf"})
          /\ lock' = "none" /\ mpc' = "s-alive" /\ UNCHANGED << flag, why, mt, op, res, calls >> /\ UNCHANGED wv
\* the program cannot be launched (any more)
SFail == /\ mpc = "s-spawn" /\ obj' = FALSE /\ cl' = "none" /\ lock' = "none" /\ Done("failed") /\ UNCHANGED << os, calling, wdt, ticks, launches, flag, why, mt, op, calls >> /\ Keep
SAlive == /\ mpc = "s-alive" /\ lock = "none" /\ os' = Reaped(os)
          /\ mpc' = (IF obj /\ os = "run" THEN (IF Careless THEN "s-begin" ELSE "s-talk") ELSE "s-bad")
          /\ UNCHANGED << lock, obj, cl, calling, wdt, ticks, launches, flag, why, mt, op, res, calls >> /\ Keep
Begin(from, to) == mpc = from /\ lock = "none" /\ calling' = TRUE /\ wdt' = T /\ ticks' = 0 /\ mpc' = to /\ UNCHANGED << lock, obj, os, cl, launches, flag, why, mt, op, res, calls >> /\ Keep
\* communication: ends with an answer, or with an error once the stream ended (no process writes to it any more)
Talk(from, good, bad) == /\ mpc = from
                         /\ \/ os = "run" /\ talk = "answer" /\ mpc' = good
                            \/ (os # "run" \/ cl = "ended") /\ mpc' = bad
                         /\ UNCHANGED << lock, obj, os, cl, calling, wdt, ticks, launches, flag, why, mt, op, res, calls >> /\ Keep
End(from, to, c) == mpc = from /\ lock = "none" /\ calling' = FALSE /\ wdt' = 0 /\ cl' = c /\ mpc' = to /\ UNCHANGED << lock, obj, os, ticks, launches, flag, why, mt, op, res, calls >> /\ Keep
Return(from, r) == mpc = from /\ Done(r) /\ UNCHANGED << lock, obj, os, cl, calling, wdt, ticks, launches, flag, why, mt, op, calls >> /\ Keep
\* call
CReady == /\ mpc = "c-ready" /\ lock = "none" /\ os' = Reaped(os)
          /\ IF obj /\ os = "run" /\ cl = "open" THEN mpc' = "c-begin" /\ res' = res ELSE Done("not ready")
          /\ UNCHANGED << lock, obj, cl, calling, wdt, ticks, launches, flag, why, mt, op, calls >> /\ Keep
\* termination by the caller
MTerm == /\ mpc = "t" /\ lock = "m"
         /\ \/ mt \in {"quit", "look", "term", "kill"} /\ mt' = StepOf(mt) /\ UNCHANGED << obj, cl >>
               /\ (IF mt = "quit" THEN Quit("m", mt) ELSE IF mt = "look" THEN os' = Reaped(os) ELSE IF mt = "term" THEN TermSig(mt) ELSE KillSig(mt))
            \/ mt = "close" /\ mt' = "end" /\ os' = os /\ obj' = FALSE /\ cl' = (IF cl = "open" THEN "ended" ELSE cl)
         /\ wdt' = 0 /\ UNCHANGED << lock, calling, ticks, launches, flag, why, mpc, op, res, calls >> /\ Keep
MTermEnd == /\ mpc = "t" /\ mt = "end" /\ mt' = "-"
            /\ IF op = "start" /\ res = "-" /\ ~calling /\ launches < Launches THEN mpc' = "s-spawn" /\ lock' = lock /\ res' = res
               ELSE lock' = "none" /\ (IF op = "reset" THEN mpc' = "s-lock" /\ res' = res ELSE Done(IF op = "stop" THEN "stopped" ELSE "failed"))
            /\ UNCHANGED << cl, obj, os, calling, wdt, ticks, launches, flag, why, op, calls >> /\ Keep
MStop == mpc = "t-first" /\ (IF obj THEN mpc' = "t" /\ mt' = "quit" ELSE mpc' = "t" /\ mt' = "end") /\ UNCHANGED << lock, obj, os, cl, calling, wdt, ticks, launches, flag, why, op, res, calls >> /\ Keep
FStop == mpc = "f-first" /\ mpc' = "t" /\ mt' = (IF obj THEN "quit" ELSE "end") /\ res' = "fail" /\ UNCHANGED << lock, obj, os, cl, calling, wdt, ticks, launches, flag, why, op, calls >> /\ Keep
Main == \/ Lock("s-lock", "s-check") \/ SCheck \/ SSpawn \/ SFail \/ SAlive \/ Begin("s-begin", "s-talk") \/ Talk("s-talk", "s-good", "s-bad")
        \/ End("s-good", "s-ok", "open") \/ End("s-bad", "f-lock", "ended") \/ Return("s-ok", "started")
        \/ Lock("f-lock", "f-first") \/ FStop
        \/ CReady \/ Begin("c-begin", "c-talk") \/ Talk("c-talk", "c-good", "c-bad") \/ End("c-good", "c-ok", cl) \/ End("c-bad", "f-lock", cl) \/ Return("c-ok", "answered")
        \/ Lock("x-lock", "t-first") \/ MStop \/ MTerm \/ MTermEnd

\* ---- the watchdog
WSleep == wpc = "sleep" /\ wpc' = "wake" /\ UNCHANGED << lock, obj, os, cl, calling, wdt, ticks, launches, flag, why, wt >> /\ UNCHANGED envv /\ UNCHANGED mainv
WTick == /\ wpc = "wake" /\ lock = "none" /\ os' = Reaped(os) /\ flag' = FALSE
         /\ LET dead == obj /\ os # "run"  late == ~flag /\ ~dead /\ wdt = 1
                hit == dead \/ flag \/ late IN
            /\ wdt' = (IF ~flag /\ ~dead /\ wdt > 0 THEN wdt - 1 ELSE wdt)
            /\ why' = (IF dead THEN "dead" ELSE IF flag THEN "flag" ELSE IF late THEN "late" ELSE why)
            /\ IF hit /\ obj THEN lock' = "w" /\ wpc' = "term" /\ wt' = "quit" ELSE lock' = lock /\ wpc' = "sleep" /\ wt' = "-"
         /\ ticks' = (IF ticks > T THEN ticks ELSE ticks + 1) /\ UNCHANGED << obj, cl, calling, launches >> /\ UNCHANGED envv /\ UNCHANGED mainv
WTerm == /\ wpc = "term" /\ lock = "w"
         /\ \/ wt \in {"quit", "look", "term", "kill"} /\ wt' = StepOf(wt) /\ UNCHANGED << obj, cl >>
               /\ (IF wt = "quit" THEN Quit("w", wt) ELSE IF wt = "look" THEN os' = Reaped(os) ELSE IF wt = "term" THEN TermSig(wt) ELSE KillSig(wt))
            \/ wt = "close" /\ wt' = "end" /\ os' = os /\ (IF calling /\ ~Careless THEN UNCHANGED << obj, cl >> ELSE obj' = FALSE /\ cl' = (IF cl = "open" THEN "ended" ELSE cl))
         /\ wdt' = 0 /\ UNCHANGED << lock, calling, ticks, launches, flag, why, wpc >> /\ UNCHANGED envv /\ UNCHANGED mainv
WTermEnd == wpc = "term" /\ wt = "end" /\ wt' = "-" /\ lock' = "none" /\ wpc' = "sleep" /\ UNCHANGED << obj, os, cl, calling, wdt, ticks, launches, flag, why >> /\ UNCHANGED envv /\ UNCHANGED mainv
Watchdog == WSleep \/ WTick \/ WTerm \/ WTermEnd
Next == Die \/ Change \/ Raise \/ Pick \/ Main \/ Watchdog
Bound == ticks <= T + 2
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ WF_vars(Watchdog) /\ SF_vars(WTick) /\ SF_vars(Main)

InTalk == mpc \in {"s-talk", "c-talk"}
\* the streams are used by one thread and not released while they are used
OneUser == ~(InTalk /\ cl # "ended" /\ wpc = "term" /\ ~calling)
InUse == InTalk /\ cl # "ended" => obj /\ calling
Exclusive == (wpc = "term" => lock = "w") /\ (mpc \in {"t", "s-check", "s-spawn"} => lock = "m")
\* a process without an object would never be disposed of
Owned == os # "none" => obj
\* after an operation that stops or failed there is no process
Disposed == mpc = "idle" /\ res \in {"stopped", "failed"} => os = "none"
\* the supervision ends a call only when its time is over
InTime == wpc = "term" /\ why = "late" /\ wt = "quit" => T > 0 /\ ticks >= T
Fresh == calling => wdt <= T
\* every operation ends
Ends == T > 0 => [](mpc # "idle" => <>(mpc = "idle"))
\* a process that ended is reaped
Reaping == [](os = "zombie" => <>(os # "zombie"))
=============================================================================
