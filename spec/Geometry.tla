------------------------------ MODULE Geometry ------------------------------
(* What regions cover.  Coordinates of rectangles and polygons are integers in quarters of a pixel; masks are
   in pixels.  A pixel is a pair <<x, y>> of integers.
     rect: x, y, w, h (w, h at least one pixel)     poly: p, a sequence of <<x, y>>
     mask: x, y, w, h, bits (0/1, row by row)       special: no pixels                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Q == 4
Rd(v) == (v + Q \div 2) \div Q                    \* nearest pixel, halves upwards
FloorQ(v) == v \div Q
CeilQ(v) == -((-v) \div Q)
MinOf(s) == CHOOSE a \in s : \A b \in s : a <= b
MaxOf(s) == CHOOSE a \in s : \A b \in s : a >= b

RectPts(r) == << <<r.x, r.y>>, <<r.x + r.w - Q, r.y>>, <<r.x + r.w - Q, r.y + r.h - Q>>, <<r.x, r.y + r.h - Q>> >>
Rounded(p) == [i \in DOMAIN p |-> <<Rd(p[i][1]), Rd(p[i][2])>>]
Prev(p, i) == IF i = 1 THEN Len(p) ELSE i - 1

\* columns (floored) where the outline of the integer polygon p crosses row y; half = 0, 1: the two half-open rules
Crosses(a, b, y, half) == IF half = 0 THEN (a < y) # (b < y) ELSE (a <= y) # (b <= y)
CrossAt(a, b, y) == LET d == b[2] - a[2] n == a[1] * d + (y - a[2]) * (b[1] - a[1]) IN IF d > 0 THEN n \div d ELSE (-n) \div (-d)
Nodes(p, y, half) ==
    LET es == SelectSeq([i \in DOMAIN p |-> <<p[i], p[Prev(p, i)]>>], LAMBDA e : Crosses(e[1][2], e[2][2], y, half))
    IN SortSeq([i \in DOMAIN es |-> CrossAt(es[i][1], es[i][2], y)], LAMBDA a, b : a < b)
RowCov(p, y) ==
    UNION {LET n == Nodes(p, y, half) IN UNION {n[2 * i - 1]..n[2 * i] : i \in 1..(Len(n) \div 2)} : half \in 0..1}
    \cup UNION {LET a == p[i] b == p[Prev(p, i)] IN IF a[2] = y /\ b[2] = y THEN MinOf({a[1], b[1]})..MaxOf({a[1], b[1]}) ELSE {} : i \in DOMAIN p}
PolyCov(p) == LET q == Rounded(p) ys == {q[i][2] : i \in DOMAIN q}
              IN UNION {{<<x, y>> : x \in RowCov(q, y)} : y \in MinOf(ys)..MaxOf(ys)}
MaskCov(r) == {<<r.x + ((i - 1) % r.w), r.y + ((i - 1) \div r.w)>> : i \in {j \in DOMAIN r.bits : r.bits[j] = 1}}
Cov(r) == CASE r.k = "rect" -> PolyCov(RectPts(r))
            [] r.k = "poly" -> PolyCov(r.p)
            [] r.k = "mask" -> MaskCov(r)
            [] r.k = "special" -> {}

\* bounds <<left, top, right, bottom>> in quarters; <<>> when there are none
Bounds(r) ==
    CASE r.k = "rect" -> <<r.x, r.y, r.x + r.w - Q, r.y + r.h - Q>>
      [] r.k = "poly" -> LET xs == {r.p[i][1] : i \in DOMAIN r.p} ys == {r.p[i][2] : i \in DOMAIN r.p}
                         IN <<MinOf(xs), MinOf(ys), MaxOf(xs), MaxOf(ys)>>
      [] r.k = "mask" -> LET c == MaskCov(r) xs == {a[1] : a \in c} ys == {a[2] : a \in c}
                         IN IF c = {} THEN <<>> ELSE <<Q * MinOf(xs), Q * MinOf(ys), Q * MaxOf(xs), Q * MaxOf(ys)>>
      [] OTHER -> <<>>

Empty(r) == r.k = "mask" /\ MaskCov(r) = {}
\* conversions; the mask is given by its pixels
ToRect(r) == IF r.k = "rect" THEN r
             ELSE LET b == Bounds(r) IN IF r.k = "poly" THEN [k |-> "rect", x |-> b[1], y |-> b[2], w |-> b[3] - b[1], h |-> b[4] - b[2]]
                                        ELSE [k |-> "rect", x |-> b[1], y |-> b[2], w |-> b[3] - b[1] + Q, h |-> b[4] - b[2] + Q]
ToPoly(r) == IF r.k = "poly" THEN r
             ELSE IF r.k = "rect" THEN [k |-> "poly", p |-> RectPts(r)]
             ELSE LET b == Bounds(r) IN [k |-> "poly", p |-> << <<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>> >>]
MaskOf(pix) == LET xs == {a[1] : a \in pix} ys == {a[2] : a \in pix}
                   x == MinOf(xs) y == MinOf(ys) w == MaxOf(xs) - x + 1 h == MaxOf(ys) - y + 1
               IN [k |-> "mask", x |-> x, y |-> y, w |-> w, h |-> h, bits |-> [i \in 1..(w * h) |-> IF <<x + ((i - 1) % w), y + ((i - 1) \div w)>> \in pix THEN 1 ELSE 0]]
Shift(r, dx, dy) == CASE r.k = "rect" -> [r EXCEPT !.x = @ + Q * dx, !.y = @ + Q * dy]
                      [] r.k = "poly" -> [r EXCEPT !.p = [i \in DOMAIN r.p |-> <<r.p[i][1] + Q * dx, r.p[i][2] + Q * dy>>]]
                      [] r.k = "mask" -> [r EXCEPT !.x = @ + dx, !.y = @ + dy]
                      [] OTHER -> r
ShiftPix(s, dx, dy) == {<<a[1] + dx, a[2] + dy>> : a \in s}

\* bounds of a comparison: <<left, top, right, bottom>> in pixels, inclusive, or <<>> for none
Within(s, b) == IF b = <<>> THEN s ELSE {a \in s : a[1] >= b[1] /\ a[2] >= b[2] /\ a[1] <= b[3] /\ a[2] <= b[4]}
Overlap(r, s, b) == LET x == Within(Cov(r), b) y == Within(Cov(s), b) IN <<Cardinality(x \cap y), Cardinality(x \cup y)>>

\* point membership; the point is in quarters.  "edge": exactly on the outline of a polygon, either answer is right
OnSeg(a, b, p) == /\ (b[1] - a[1]) * (p[2] - a[2]) = (b[2] - a[2]) * (p[1] - a[1])
                  /\ MinOf({a[1], b[1]}) <= p[1] /\ p[1] <= MaxOf({a[1], b[1]}) /\ MinOf({a[2], b[2]}) <= p[2] /\ p[2] <= MaxOf({a[2], b[2]})
\* the ray from p to the right crosses the edge
RayHits(a, b, p) == /\ (a[2] > p[2]) # (b[2] > p[2])
                    /\ LET d == b[2] - a[2] n == (b[1] - a[1]) * (p[2] - a[2]) m == (p[1] - a[1]) * d
                       IN IF d > 0 THEN m < n ELSE m > n
PolyContains(p, pt) == IF \E i \in DOMAIN p : OnSeg(p[i], p[Prev(p, i)], pt) THEN "edge"
                       ELSE IF Cardinality({i \in DOMAIN p : RayHits(p[i], p[Prev(p, i)], pt)}) % 2 = 1 THEN "in" ELSE "out"
Inside(r, pt) ==
    CASE r.k = "rect" -> IF r.x <= pt[1] /\ pt[1] <= r.x + r.w /\ r.y <= pt[2] /\ pt[2] <= r.y + r.h THEN "in" ELSE "out"
      [] r.k = "poly" -> PolyContains(r.p, pt)
      [] r.k = "mask" -> IF <<FloorQ(pt[1]), FloorQ(pt[2])>> \in MaskCov(r) THEN "in" ELSE "out"
      [] OTHER -> "out"
=============================================================================
