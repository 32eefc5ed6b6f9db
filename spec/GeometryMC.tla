---------------------------- MODULE GeometryMC ------------------------------
(* Enumerates regions; a region grows by a vertex, a pixel or a size step.  Complete regions are emitted with
   what the specification says about them.  The invariants are the geometric facts the properties rest on. *)
EXTENDS Geometry, Json
CONSTANTS Kind, NLo, Hi, Step, MaxV, MaxPix, Probe
VARIABLES r
Lo == -NLo
Coord == {Lo + Step * i : i \in 0..((Hi - Lo) \div Step)}
Init == CASE Kind = "poly" -> r = [k |-> "poly", p |-> <<>>]
          [] Kind = "mask" -> \E w \in 1..MaxPix, h \in 1..MaxPix : w * h <= MaxPix /\ r = [k |-> "mask", x |-> (w - h) * 2, y |-> h - 2 * w, w |-> w, h |-> h, bits |-> <<>>]
          [] Kind = "rect" -> \E x \in Coord, y \in Coord : r = [k |-> "rect", x |-> x, y |-> y, w |-> Q, h |-> Q]
Next == CASE Kind = "poly" -> Len(r.p) < MaxV /\ \E x \in Coord, y \in Coord : r' = [r EXCEPT !.p = Append(@, <<x, y>>)]
          [] Kind = "mask" -> Len(r.bits) < r.w * r.h /\ \E b \in 0..1 : r' = [r EXCEPT !.bits = Append(@, b)]
          [] Kind = "rect" -> \/ r.w <= MaxPix * Q /\ r' = [r EXCEPT !.w = @ + Step]
                              \/ r.h <= MaxPix * Q /\ r' = [r EXCEPT !.h = @ + Step]
\* for random exploration: one randomly chosen step
NextR == CASE Kind = "poly" -> Len(r.p) < MaxV /\ \E x \in {RandomElement(Coord)}, y \in {RandomElement(Coord)} : r' = [r EXCEPT !.p = Append(@, <<x, y>>)]
           [] OTHER -> Next
Done == CASE Kind = "poly" -> Len(r.p) >= 3 [] Kind = "mask" -> Len(r.bits) = r.w * r.h [] OTHER -> TRUE
Pts == {Lo - Q + Probe * i : i \in 0..((Hi - Lo + 3 * Q) \div Probe)}
PtSeq == SetToSeq({<<x, y>> : x \in Pts, y \in Pts})
Emit == Done => PrintT(<<"R", ToJson([r |-> r, cov |-> SetToSeq(Cov(r)), b |-> Bounds(r), rect |-> IF Empty(r) THEN r ELSE ToRect(r), poly |-> IF Empty(r) THEN r ELSE ToPoly(r),
                                      pts |-> IF Probe = 0 THEN <<>> ELSE PtSeq, inside |-> IF Probe = 0 THEN <<>> ELSE [i \in DOMAIN PtSeq |-> Inside(r, PtSeq[i])]])>>)

\* ---- facts
ShiftCov == Done => \A d \in {<<1, 0>>, <<-3, 2>>, <<0, -5>>} : Cov(Shift(r, d[1], d[2])) = ShiftPix(Cov(r), d[1], d[2])
\* covered pixels lie between the (rounded) extremes; the extremes themselves are reached
InBox == (Done /\ Cov(r) # {}) => LET b == Bounds(r) c == Cov(r) IN
            /\ \A a \in c : Rd(b[1]) <= a[1] /\ a[1] <= Rd(b[3]) /\ Rd(b[2]) <= a[2] /\ a[2] <= Rd(b[4])
            /\ MinOf({a[1] : a \in c}) = Rd(b[1]) /\ MaxOf({a[1] : a \in c}) = Rd(b[3]) /\ MinOf({a[2] : a \in c}) = Rd(b[2]) /\ MaxOf({a[2] : a \in c}) = Rd(b[4])
\* every pixel inside the rounded outline is covered
Filled == (Done /\ Kind = "poly") => LET q == Rounded(r.p) c == Cov(r) IN
            \A x \in FloorQ(Lo)..CeilQ(Hi), y \in FloorQ(Lo)..CeilQ(Hi) : PolyContains(q, <<x, y>>) \in {"in", "edge"} => <<x, y>> \in c
\* the same region in another format covers the same pixels
Formats == (Done /\ Cov(r) # {}) => /\ Cov(MaskOf(Cov(r))) = Cov(r)
                                    /\ (Kind = "rect" => Cov(ToPoly(r)) = Cov(r))
                                    /\ (Kind = "mask" => LET e == ToRect(r) f == ToPoly(r) IN Bounds(e) = Bounds(r) /\ Bounds(f) = Bounds(r) /\ Cov(e) = Cov(f) /\ Cov(r) \subseteq Cov(e))
                                    /\ Overlap(r, MaskOf(Cov(r)), <<>>)[1] = Overlap(r, r, <<>>)[2]
\* points: never outside the closed extent
NeverOutside == Done => \A pt \in {<<x, y>> : x \in {Lo - 9, Lo - 1, Hi + (2 * MaxPix + 3) * Q + 1}, y \in Coord} : LET b == Bounds(r) IN
            (b = <<>> \/ pt[1] < b[1] \/ pt[1] > b[3] + Q) => Inside(r, pt) = "out"
ShiftPts == Done => \A pt \in {<<x, y>> : x \in {Lo, Lo + 1, (Lo + Hi) \div 2}, y \in {Lo + 2, (Lo + Hi) \div 2, Hi}} : Inside(r, pt) = Inside(Shift(r, 7, -4), <<pt[1] + 7 * Q, pt[2] - 4 * Q>>)
=============================================================================
