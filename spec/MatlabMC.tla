----------------------------- MODULE MatlabMC ------------------------------
(* Part 1: every small picture and mask, and the facts about the way they are shown.
   Part 2: the loop of the client.  A callback is asked again and again what to do next, being told the
   answer to what it asked for before; its decision is "stop" (no image), "init" (image and region) or
   "frame" (image only); it may also fail ("throw") or decide for what is no request ("wrong").  An initialization of a running tracker starts a new one.  The answer to a request
   may fail to come: the tracker dies, leaves, or answers with something else.                         *)
EXTENDS Matlab, TLC, Json
CONSTANTS Part, MaxW, MaxCalls, Fates
VARIABLES s
Loop0 == [k |-> "loop", on |-> FALSE, launch |-> 1, over |-> "", hist |-> <<>>]
Init == \/ Part = 1 /\ \E w \in 1..MaxW, h \in 1..MaxW : w * h <= MaxW + 1 /\ \E x \in -2..1, y \in -2..1 : s = [k |-> "mask", x |-> x, y |-> y, w |-> w, h |-> h, d |-> <<>>]
        \/ Part = 1 /\ \E w \in 1..MaxW, h \in 1..MaxW, c \in {1, 3} : w * h <= MaxW + 1 /\ s = [k |-> "image", w |-> w, h |-> h, c |-> c, d |-> <<>>]
        \/ Part = 2 /\ s = Loop0
Full == s.k # "loop" /\ Len(s.d) = s.w * s.h * (IF s.k = "image" THEN s.c ELSE 1)
Grow == s.k # "loop" /\ ~Full /\ \E v \in (IF s.k = "mask" THEN 0..1 ELSE {Len(s.d) * 7 + 1}) : s' = [s EXCEPT !.d = Append(@, v)]
Ask(d, f) ==
    LET runs == d = "init" \/ (d = "frame" /\ s.on)
        l == IF d = "init" /\ s.on THEN s.launch + 1 ELSE s.launch
    IN /\ s.over = "" /\ Len(s.hist) < MaxCalls
       /\ (~runs => f = "ok")
       /\ s' = [s EXCEPT !.on = @ \/ d = "init", !.launch = l,
                         !.over = CASE runs /\ f = "ok" -> "" [] runs -> "failed" [] d \in {"throw", "wrong"} -> "failed" [] OTHER -> "done",
                         !.hist = Append(@, [dec |-> d, fate |-> f, launch |-> l, asks |-> IF runs THEN d ELSE "nothing",
                                             told |-> Len(@)])]
Next == Grow \/ (s.k = "loop" /\ \E d \in {"stop", "init", "frame", "throw", "wrong"}, f \in Fates : Ask(d, f))
Emit == (s.k = "loop" /\ s.over # "") => PrintT(<<"L", ToJson(s)>>)

\* ---- facts
ImageBack == (Full /\ s.k = "image") => MatrixImage(s.w, s.h, s.c, ImageMatrix(s.w, s.h, s.c, s.d)) = s.d
MaskSame == (Full /\ s.k = "mask") => LET v == MaskMatrix(s.x, s.y, s.w, s.h, s.d)  b == MatrixMask(v.rows, v.cols, v.m)
                IN Pixels(b.x, b.y, b.w, b.h, b.bits) = {p \in Pixels(s.x, s.y, s.w, s.h, s.d) : p[1] >= 0 /\ p[2] >= 0}
\* every request goes to the tracker that was initialized last; each tracker begins with an initialization
Ordered == s.k = "loop" => \A i \in DOMAIN s.hist : s.hist[i].asks = "frame" => \E j \in 1..(i - 1) : s.hist[j].asks = "init" /\ s.hist[j].launch = s.hist[i].launch
Fresh == s.k = "loop" => \A i \in DOMAIN s.hist : \A j \in 1..(i - 1) : (s.hist[i].asks = "init" /\ s.hist[j].asks # "nothing") => s.hist[i].launch > s.hist[j].launch
=============================================================================
