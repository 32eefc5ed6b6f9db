---------------------------- MODULE RegionText -----------------------------
(* The text form of regions.  Coordinates are kept as canonical decimal texts (four decimals), so the
   specification says exactly which digits travel; masks are offset, size and a sequence of pixels (0/1).
   Decode gives a region, Fail, or Unsure: texts outside the documented forms, for which only a valid region or
   a failure is required.                                                                         *)
EXTENDS Bytes
COMMA == 44  DOT == 46  MINUS == 45  ZERO == 48

Fail == [k |-> "fail"]
Unsure == [k |-> "any"]

RECURSIVE DropZeros(_)      \* leading zeros, keeping one digit
DropZeros(d) == IF Len(d) > 1 /\ d[1] = ZERO THEN DropZeros(Tail(d)) ELSE d
AllDigits(d) == d # <<>> /\ \A i \in DOMAIN d : IsDigit(d[i])
AllZero(d) == \A i \in DOMAIN d : d[i] = ZERO
Pad4(d) == d \o [i \in 1..(4 - Len(d)) |-> ZERO]
None == <<>>
\* canonical form of a documented number, None if it is not one
Canon(t) ==
    LET neg == t # <<>> /\ t[1] = MINUS
        u == IF neg THEN Tail(t) ELSE t
        p == SplitAt(u, DOT)
        ip == p[1]  fp == IF Len(p) = 2 THEN p[2] ELSE <<>>
    IN IF Len(p) > 2 \/ ~AllDigits(ip) \/ (Len(p) = 2 /\ ~AllDigits(fp)) \/ Len(fp) > 4 THEN None
       ELSE LET body == DropZeros(ip) \o <<DOT>> \o Pad4(fp)
            IN IF neg /\ ~(AllZero(ip) /\ AllZero(fp)) THEN <<MINUS>> \o body ELSE body
IsIntText(t) == LET u == IF t # <<>> /\ t[1] = MINUS THEN Tail(t) ELSE t IN AllDigits(u) /\ Len(DropZeros(u)) <= 6
RECURSIVE DigitsVal(_, _)
DigitsVal(d, a) == IF d = <<>> THEN a ELSE DigitsVal(Tail(d), 10 * a + d[1] - ZERO)
IntVal(t) == IF t[1] = MINUS THEN -DigitsVal(Tail(t), 0) ELSE DigitsVal(t, 0)

Join(ss) == FoldLeft(LAMBDA a, x : IF a = <<>> THEN x ELSE a \o <<COMMA>> \o x, <<>>, ss)

\* run lengths of a pixel sequence, alternating and starting with background; trailing background is left out
Runs(bits) == LET r == FoldLeft(LAMBDA a, b : IF b = a.v THEN [a EXCEPT !.n = @ + 1] ELSE [v |-> b, n |-> 1, out |-> Append(a.out, a.n)],
                                [v |-> 0, n |-> 0, out |-> <<>>], bits)
              IN IF r.v = 1 THEN Append(r.out, r.n) ELSE r.out
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Rep(v, n) == [i \in 1..n |-> v]
Expand(runs, len) == LET e == FoldLeft(LAMBDA a, n : [v |-> 1 - a.v, out |-> a.out \o Rep(a.v, n)], [v |-> 0, out |-> <<>>], runs)
                     IN e.out \o Rep(0, len - Len(e.out))

Encode(r) ==
    CASE r.k = "special" -> r.c
      [] r.k = "rect" -> Join(r.p)
      [] r.k = "poly" -> Join(r.p)
      [] r.k = "mask" -> B("mask:") \o Join(<<IntStr(r.x), IntStr(r.y), IntStr(r.w), IntStr(r.h)>> \o [i \in DOMAIN Runs(r.bits) |-> IntStr(Runs(r.bits)[i])])

DecodeMask(t) ==
    LET f == SplitAt(t, COMMA) IN
    IF \E i \in DOMAIN f : ~IsIntText(f[i]) THEN Unsure
    ELSE IF Len(f) < 4 THEN Fail
    ELSE LET v == [i \in DOMAIN f |-> IntVal(f[i])]
             runs == SubSeq(v, 5, Len(v))
         IN IF v[3] < 1 \/ v[4] < 1 THEN Fail
            ELSE IF v[3] > 10000 \/ v[4] > 10000 \/ v[3] * v[4] > 100000 \/ (\E i \in DOMAIN runs : runs[i] < 0) \/ Sum(runs) > v[3] * v[4] THEN Unsure
            ELSE [k |-> "mask", x |-> v[1], y |-> v[2], w |-> v[3], h |-> v[4], bits |-> Expand(runs, v[3] * v[4])]

Decode(s) ==
    IF s = <<>> THEN Fail
    ELSE IF StartsWith(s, B("mask:")) THEN DecodeMask(Drop(s, 5))
    ELSE LET f == SplitAt(s, COMMA)
             c == [i \in DOMAIN f |-> Canon(f[i])]
         IN IF \E i \in DOMAIN f : c[i] = None THEN Unsure
            ELSE CASE Len(f) = 1 -> IF IsIntText(f[1]) THEN [k |-> "special", c |-> IntStr(IntVal(f[1]))] ELSE Unsure
                   [] Len(f) = 4 -> [k |-> "rect", p |-> c]
                   [] Len(f) >= 6 /\ Len(f) % 2 = 0 -> [k |-> "poly", p |-> c]
                   [] OTHER -> Fail
IsRegion(r) == r.k \notin {"fail", "any"}
=============================================================================
