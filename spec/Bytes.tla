------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of naturals 0..255.  Literals of the specification are written as TLA+
   strings and turned into byte strings with B("...").                                             *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

ASCII == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
OrdOf == [c \in {SubSeq(ASCII, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(ASCII, i, i) = c]
B(s) == [i \in 1..Len(s) |-> OrdOf[SubSeq(s, i, i)]]
ChrOf == [n \in 32..126 |-> SubSeq(ASCII, n - 31, n - 31)]

NL == 10  CR == 13  SP == 32  QT == 34  BS == 92  EQ == 61  LN == 110  \* newline, return, space, quote, backslash, '=', 'n'

IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsAlnum(c) == IsDigit(c) \/ IsUpper(c) \/ IsLower(c)
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
LowerSeq(s) == [i \in DOMAIN s |-> Lower(s[i])]

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
\* first position of c in s at or after k, 0 if none
RECURSIVE Find(_, _, _)
Find(s, c, k) == IF k > Len(s) THEN 0 ELSE IF s[k] = c THEN k ELSE Find(s, c, k + 1)
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET k == Find(s, c, 1) IN IF k = 0 THEN <<s>> ELSE <<Take(s, k - 1)>> \o SplitAt(Drop(s, k), c)

RECURSIVE DecStr(_)
DecStr(n) == IF n < 10 THEN <<48 + n>> ELSE DecStr(n \div 10) \o <<48 + (n % 10)>>
IntStr(n) == IF n < 0 THEN <<45>> \o DecStr(-n) ELSE DecStr(n)

(* Maps from byte strings to byte strings are kept as sequences of <<key, value>> pairs in the order of
   first insertion, so that they can be written as JSON; MapPut gives them map semantics.          *)
RECURSIVE MapIdx(_, _, _)
MapIdx(m, k, i) == IF i > Len(m) THEN 0 ELSE IF m[i][1] = k THEN i ELSE MapIdx(m, k, i + 1)
MapHas(m, k) == MapIdx(m, k, 1) # 0
MapGet(m, k) == m[MapIdx(m, k, 1)][2]
MapPut(m, k, v) == LET i == MapIdx(m, k, 1) IN IF i = 0 THEN Append(m, <<k, v>>) ELSE [m EXCEPT ![i] = <<k, v>>]
MapAll(m, n) == FoldLeft(LAMBDA a, e : MapPut(a, e[1], e[2]), m, n)
MapEq(m, n) == ToSet(m) = ToSet(n)
=============================================================================
