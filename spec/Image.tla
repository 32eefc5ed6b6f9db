------------------------------- MODULE Image -------------------------------
(* Images and their text form.  An image is a path or URL text, raw memory (size, pixel format and the bytes of
   all rows) or an encoded buffer (JPEG or PNG).  Read gives the image a text stands for, Bad for a text that is
   no image, or an image with sure = FALSE: a text outside the documented form (missing Base64 padding, stray
   bits, blanks in the header) that may be refused, but if it is delivered it is this image.          *)
EXTENDS Bytes
COLON == 58  SEMI == 59  PAD == 61

Basis == B("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
SixOf == [c \in ToSet(Basis) |-> (CHOOSE i \in 1..64 : Basis[i] = c) - 1]
Digit64(n) == Basis[n + 1]

\* Base64 of a byte sequence, three bytes to four digits
Enc(d) == FoldLeft(LAMBDA a, g :
            LET i == 3 * g  r == Len(d) - i + 3  b == [k \in 1..3 |-> IF i - 3 + k <= Len(d) THEN d[i - 3 + k] ELSE 0]
            IN a \o << Digit64(b[1] \div 4), Digit64((b[1] % 4) * 16 + b[2] \div 16),
                       IF r > 1 THEN Digit64((b[2] % 16) * 4 + b[3] \div 64) ELSE PAD, IF r > 2 THEN Digit64(b[3] % 64) ELSE PAD >>,
          <<>>, [k \in 1..((Len(d) + 2) \div 3) |-> k])
\* the longest prefix of digits
DigitCount(t) == LET s == {i \in DOMAIN t : t[i] \notin DOMAIN SixOf} IN IF s = {} THEN Len(t) ELSE (CHOOSE i \in s : \A j \in s : i <= j) - 1
None == [ok |-> FALSE, d |-> <<>>, sure |-> TRUE]
Dec(t) ==
    LET n == DigitCount(t)
        p == Len(t) - n
        v == [i \in 1..n |-> SixOf[t[i]]]
        at(i) == IF i <= n THEN v[i] ELSE 0
        len == (n \div 4) * 3 + (CASE n % 4 = 0 -> 0 [] n % 4 = 2 -> 1 [] n % 4 = 3 -> 2 [] OTHER -> 0)
        byte(k) == LET g == (k - 1) \div 3  o == (k - 1) % 3  q == 4 * g
                   IN CASE o = 0 -> at(q + 1) * 4 + at(q + 2) \div 16
                        [] o = 1 -> (at(q + 2) % 16) * 16 + at(q + 3) \div 4
                        [] OTHER -> (at(q + 3) % 4) * 64 + at(q + 4)
        stray == CASE n % 4 = 2 -> v[n] % 16 # 0 [] n % 4 = 3 -> v[n] % 4 # 0 [] OTHER -> FALSE
    IN IF n < 2 \/ n % 4 = 1 \/ (\E i \in (n + 1)..Len(t) : t[i] # PAD) \/ p > 2 \/ (p > 0 /\ Len(t) % 4 # 0) THEN None
       ELSE [ok |-> TRUE, d |-> [k \in 1..len |-> byte(k)], sure |-> ~stray /\ Len(t) % 4 = 0]

Formats == [gray8 |-> 1, gray16 |-> 2, rgb |-> 3]        \* name |-> bytes per pixel (and public number)
FormatName == [f \in 1..3 |-> CASE f = 1 -> B("gray8") [] f = 2 -> B("gray16") [] OTHER -> B("rgb")]
BytesPer(f) == f
Types == << B("image/png"), B("image/jpeg") >>           \* public numbers 1 and 2

Text(im) ==
    CASE im.k = "path" -> B("file://") \o im.v
      [] im.k = "url" -> im.v
      [] im.k = "memory" -> B("image:") \o DecStr(im.w) \o <<SEMI>> \o DecStr(im.h) \o <<SEMI>> \o FormatName[im.f] \o <<SEMI>> \o Enc(im.d)
      [] im.k = "buffer" -> B("data:") \o Types[im.f] \o <<SEMI>> \o Enc(im.d)

Bad == [k |-> "bad", sure |-> TRUE]
\* length of the URI scheme of a text, 0 if it has none; a single capital letter is a drive, not a scheme
SchemeChar(c, i) == IsLower(c) \/ c \in {43, 45, 46} \/ IsUpper(c) \/ (i > 1 /\ IsDigit(c))
SchemeLen(t) == LET k == Find(t, COLON, 1) IN
    IF k = 0 \/ k > 16 \/ (\E i \in 1..(k - 1) : ~SchemeChar(t[i], i)) \/ (k = 2 /\ IsUpper(t[1])) THEN -1 ELSE k - 1

RECURSIVE Value(_, _)
Value(d, a) == IF d = <<>> THEN a ELSE Value(Tail(d), 10 * a + d[1] - 48)
IsNum(t) == t # <<>> /\ \A i \in DOMAIN t : IsDigit(t[i])
\* blanks and a sign are tolerated in front of a number
RECURSIVE Trim(_)
Trim(t) == IF t # <<>> /\ (t[1] = SP \/ t[1] \in 9..13) THEN Trim(Tail(t)) ELSE t
Loose(t) == LET u == Trim(t) IN IF u # <<>> /\ u[1] = 43 THEN Tail(u) ELSE u

ReadMemory(t) ==
    LET i == Find(t, SEMI, 1)
        j == IF i = 0 THEN 0 ELSE Find(t, SEMI, i + 1)
        k == IF j = 0 THEN 0 ELSE Find(t, SEMI, j + 1)
    IN IF k = 0 THEN Bad
       ELSE LET ws == Loose(Take(t, i - 1))  hs == Loose(SubSeq(t, i + 1, j - 1))  name == LowerSeq(SubSeq(t, j + 1, k - 1))  body == Drop(t, k)
                fs == {f \in 1..3 : FormatName[f] = name}
            IN IF ~IsNum(ws) \/ ~IsNum(hs) \/ Len(ws) > 8 \/ Len(hs) > 8 \/ fs = {} THEN Bad      \* nothing here is that large
               ELSE LET w == Value(ws, 0)  h == Value(hs, 0)  f == CHOOSE f \in fs : TRUE  x == Dec(body)
                    IN IF w < 1 \/ h < 1 \/ ~x.ok \/ w > Len(x.d) \/ h > Len(x.d) THEN Bad
                       ELSE IF w * h * BytesPer(f) # Len(x.d) THEN Bad
                       ELSE [k |-> "memory", w |-> w, h |-> h, f |-> f, d |-> x.d,
                             sure |-> x.sure /\ IsNum(Take(t, i - 1)) /\ IsNum(SubSeq(t, i + 1, j - 1)) /\ FormatName[f] = SubSeq(t, j + 1, k - 1)]
ReadBuffer(t) ==
    LET i == Find(t, SEMI, 1) IN
    IF i = 0 THEN Bad
    ELSE LET name == LowerSeq(Take(t, i - 1))
             fs == {f \in 1..2 : Types[f] = name}
             rest == Drop(t, i)
             marked == StartsWith(rest, B("base64;")) \/ StartsWith(rest, B("base64,"))      \* the form of general data URIs
             x == Dec(IF marked THEN Drop(rest, 7) ELSE rest)
         IN IF fs = {} \/ ~x.ok THEN Bad
            ELSE [k |-> "buffer", f |-> CHOOSE f \in fs : TRUE, d |-> x.d, sure |-> x.sure /\ ~marked /\ Types[CHOOSE f \in fs : TRUE] = Take(t, i - 1)]
Read(t) ==
    LET n == SchemeLen(t) IN
    IF n < 0 THEN [k |-> "path", v |-> t, sure |-> TRUE]
    ELSE LET s == Take(t, n)  r == Drop(t, n + 1)
         IN CASE s = B("file") -> [k |-> "path", v |-> IF StartsWith(r, B("//")) THEN Drop(r, 2) ELSE r, sure |-> TRUE]
              [] s = B("image") -> ReadMemory(r)
              [] s = B("data") -> ReadBuffer(r)
              [] n = 0 -> [k |-> "url", v |-> t, sure |-> FALSE]
              [] OTHER -> [k |-> "url", v |-> t, sure |-> TRUE]
Same(a, b) == CASE a.k # b.k -> FALSE
                [] a.k = "bad" -> TRUE
                [] a.k \in {"path", "url"} -> a.v = b.v
                [] a.k = "memory" -> a.w = b.w /\ a.h = b.h /\ a.f = b.f /\ a.d = b.d
                [] OTHER -> a.f = b.f /\ a.d = b.d
=============================================================================
