---------------------------- MODULE RegionTextMC ----------------------------
(* Texts are built piece by piece and masks pixel by pixel; every text reached is emitted with its meaning,
   every complete mask with its text.  Checked: encoding and decoding are inverse to each other.     *)
EXTENDS RegionText, Json
CONSTANTS Pool, MaxN, MaxPix, Start
VARIABLES t, n, m

Starts == [empty |-> <<>>, mask |-> B("mask:"), head |-> B("mask:-1,2,3,2,"), comma |-> B("1,2,3,4,5,")]
Pools == [
  num |-> << B("0"), B("7"), B("-"), B("."), B(","), B("25"), B("-3.5"), B("00"), B("+"), B("e2"), B(" "), B("x") >>,
  tok |-> << B("1,"), B("-2.5,"), B("3"), B("0.1234,"), B("1000000,"), B("."), B(",") >>,
  run |-> << B("0,"), B("1,"), B("2,"), B("4,"), B("6"), B("1"), B("-1,"), B(",") >>,
  hostile |-> << B("nan"), B("inf"), B("-"), B("1e30"), B("99999999999"), B(","), B("mask:"), B("0"), B("2147483647"), B("65536,"), B("1,1,1,"), B("poly:"), B("rect:"), B("special:"), B(":"), <<255>>, B("0x"), B("1.5") >>
  ]
\* texts
Init == t = Starts[Start] /\ n = 0 /\ m = <<>>
Next == n < MaxN /\ n' = n + 1 /\ m' = m /\ \E k \in DOMAIN Pools[Pool] : t' = t \o Pools[Pool][k]
Emit == PrintT(<<"X", ToJson([s |-> t, r |-> Decode(t)])>>)
\* what a text means is what its canonical text means, and the canonical text is a fixed point
Stable == LET r == Decode(t) IN IsRegion(r) => Decode(Encode(r)) = r /\ Encode(Decode(Encode(r))) = Encode(r)

\* masks: m = <<x, y, w, h, bits>>
MInit == t = <<>> /\ n = 0 /\ \E w \in 1..MaxPix, h \in 1..MaxPix : w * h <= MaxPix /\ m = [k |-> "mask", x |-> (w - h) * 3, y |-> h - w, w |-> w, h |-> h, bits |-> <<>>]
MNext == UNCHANGED <<t, n>> /\ Len(m.bits) < m.w * m.h /\ \E b \in 0..1 : m' = [m EXCEPT !.bits = Append(@, b)]
MDone == Len(m.bits) = m.w * m.h
MEmit == MDone => PrintT(<<"M", ToJson([r |-> m, s |-> Encode(m)])>>)
MRound == MDone => Decode(Encode(m)) = m /\ Expand(Runs(m.bits), m.w * m.h) = m.bits
=============================================================================
