------------------------------- MODULE Header -------------------------------
(* The size of an image, read from the first bytes of its file (PNG, GIF, JPEG).  The size of a JPEG image is in
   its frame header, which follows any number of other segments.                                        *)
EXTENDS Bytes
Unknown == << 0, 0 >>
Big2(t, i) == 256 * t[i] + t[i + 1]
PngMark == << 137, 80, 78, 71, 13, 10, 26, 10 >>
FrameMark == {192, 193, 194, 195, 197, 198, 199, 201, 202, 203, 205, 206, 207}
RECURSIVE Scan(_, _)
Scan(t, i) == IF i + 8 > Len(t) \/ t[i] # 255 THEN Unknown
              ELSE IF t[i + 1] = 255 THEN Scan(t, i + 1)
              ELSE IF t[i + 1] \in FrameMark THEN << Big2(t, i + 7), Big2(t, i + 5) >>
              ELSE Scan(t, i + 2 + Big2(t, i + 2))
Size(t) ==
    IF Len(t) < 24 THEN Unknown
    ELSE IF StartsWith(t, << 255, 216, 255 >>) THEN Scan(t, 3)
    ELSE IF StartsWith(t, B("GIF")) THEN << t[7] + 256 * t[8], t[9] + 256 * t[10] >>
    ELSE IF StartsWith(t, PngMark) /\ SubSeq(t, 13, 16) = B("IHDR") THEN << 65536 * Big2(t, 17) + Big2(t, 19), 65536 * Big2(t, 21) + Big2(t, 23) >>
    ELSE Unknown
=============================================================================
