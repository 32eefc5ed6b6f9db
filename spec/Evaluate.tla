------------------------------- MODULE Evaluate -------------------------------
(* The evaluation client: runs a tracker over a sequence of frames, starts it where there is initialization data,
   records one mark per frame and restarts it after failures.  The tracker and the quality of its answers are
   the environment.                                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,          \* longest sequence
          MaxR,       \* largest restart offset (0: no restart requested)
          Faults      \* set of faults of the tracker, out of "die", "quit", "hang", "late"

VARIABLES len, has, r, thr,           \* the sequence and the options
          frame, launch, phase, first, out, req, oc
vars == << len, has, r, thr, frame, launch, phase, first, out, req, oc >>

Skip == "skip"  Start == "start"  Track == "track"  Fail == "fail"
Init == /\ len \in 1..N /\ has \in [1..len -> BOOLEAN] /\ r \in 0..MaxR /\ thr \in BOOLEAN /\ (r > 0 => thr)
        /\ frame = 1 /\ launch = 0 /\ phase = "find" /\ first = FALSE /\ out = <<>> /\ req = <<>> /\ oc = <<>>
Fixed == UNCHANGED <<len, has, r, thr>>
Pass == /\ phase = "find" /\ frame <= len /\ ~has[frame]
        /\ out' = Append(out, Skip) /\ frame' = frame + 1 /\ UNCHANGED <<launch, phase, first, req, oc>> /\ Fixed
Begin == /\ phase = "find" /\ frame <= len /\ has[frame]
         /\ req' = Append(req, <<launch, "initialize", frame>>) /\ phase' = "wait" /\ first' = TRUE /\ UNCHANGED <<frame, launch, out, oc>> /\ Fixed
Finish == phase = "find" /\ frame > len /\ phase' = "done" /\ UNCHANGED <<frame, launch, first, out, req, oc>> /\ Fixed
Good == /\ phase = "wait" /\ oc' = Append(oc, <<launch, frame, "good">>)
        /\ out' = Append(out, IF first THEN Start ELSE Track) /\ first' = FALSE /\ frame' = frame + 1
        /\ phase' = (IF frame = len THEN "done" ELSE "send") /\ UNCHANGED <<launch, req>> /\ Fixed
Send == phase = "send" /\ req' = Append(req, <<launch, "frame", frame>>) /\ phase' = "wait" /\ UNCHANGED <<frame, launch, first, out, oc>> /\ Fixed
Lower(a, b) == IF a < b THEN a ELSE b
Marks(m, n) == [i \in 1..n |-> m]
Bad == /\ phase = "wait" /\ thr /\ oc' = Append(oc, <<launch, frame, "bad">>) /\ first' = FALSE
       /\ LET gap == IF r = 0 THEN len - frame ELSE Lower(r - 1, len - frame) IN
          /\ out' = Append(out, Fail) \o Marks(Skip, gap)
          /\ frame' = frame + gap + 1
          /\ phase' = (IF r = 0 THEN "done" ELSE "find")
          /\ launch' = (IF r > 0 /\ frame + gap < len THEN launch + 1 ELSE launch)
       /\ UNCHANGED req /\ Fixed
\* "late": the tracker answers and ends before the next request
Fault(f) == /\ phase = "wait" /\ (f = "late" => frame < len) /\ oc' = Append(oc, <<launch, frame, f>>) /\ phase' = "error"
            /\ UNCHANGED <<frame, launch, first, out, req>> /\ Fixed
Next == Pass \/ Begin \/ Finish \/ Good \/ Send \/ Bad \/ \E f \in Faults : Fault(f)
\* random long behaviours for simulation
InitR == /\ len = RandomElement((N - 4)..N) /\ r = RandomElement(0..MaxR) /\ thr = (r > 0 \/ RandomElement(BOOLEAN)) /\ has = [i \in 1..len |-> RandomElement(1..3) > 1]
         /\ frame = 1 /\ launch = 0 /\ phase = "find" /\ first = FALSE /\ out = <<>> /\ req = <<>> /\ oc = <<>>
NextR == Pass \/ Begin \/ Finish \/ Send \/ (IF thr /\ RandomElement(1..4) = 1 THEN Bad ELSE Good)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ended == phase \in {"done", "error"}
Emit == Ended => PrintT(<<"E", ToJson([len |-> len, has |-> has, r |-> r, thr |-> thr, out |-> out, req |-> req, oc |-> oc, ok |-> phase = "done"])>>)

\* ---- what a result has to look like, said without the loop
At(f) == out[f]
Whole == phase = "done" => Len(out) = len
Sane == \A f \in DOMAIN out :
          /\ At(f) = Start => has[f] /\ (f = 1 \/ At(f - 1) \in {Skip, Fail})
          /\ At(f) = Track => f > 1 /\ At(f - 1) \in {Start, Track}
          /\ At(f) = Fail => thr
\* a frame without a mark of the tracker either has no initialization data or lies within the gap after a failure
Gap(f) == \E g \in 1..(f - 1) : At(g) = Fail /\ (r = 0 \/ f < g + r)
Skips == \A f \in DOMAIN out : At(f) = Skip => ~has[f] \/ Gap(f)
NoGap == \A f \in DOMAIN out : At(f) \in {Start, Track, Fail} => ~Gap(f)
\* the first frame outside of gaps that has data is a start (or fails at once)
Restart == \A f \in DOMAIN out : (has[f] /\ ~Gap(f) /\ (f = 1 \/ At(f - 1) \in {Skip, Fail})) => At(f) \in {Start, Fail}
\* every frame is shown at most once, in order, every launch is initialized first
Shown == \A i \in DOMAIN req : /\ \A j \in 1..(i - 1) : req[j][3] < req[i][3] /\ req[j][1] <= req[i][1]
                               /\ (req[i][2] = "frame" => i > 1 /\ req[i - 1][1] = req[i][1] /\ req[i - 1][3] = req[i][3] - 1)
                               /\ (req[i][2] = "initialize" => \A j \in 1..(i - 1) : req[j][1] # req[i][1])
Quiet == thr \/ ~(\E f \in DOMAIN out : out[f] = Fail)
Terminates == <>Ended
=============================================================================
