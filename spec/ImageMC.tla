------------------------------ MODULE ImageMC ------------------------------
(* Enumeration of images (sizes, formats, bytes) and of image texts, built piece by piece.             *)
EXTENDS Image, Json
CONSTANTS MaxBytes, MaxPieces, Start, Pool
VARIABLES im, t, n

Bs == {0, 1, 15, 64, 128, 255}
\* raw images: all shapes and formats with at most MaxBytes bytes; one byte is varied freely at every position
IInit == t = <<>> /\ n = 0 /\ \E w \in 1..MaxBytes, h \in 1..MaxBytes, f \in 1..3 :
            w * h * f <= MaxBytes /\ im = [k |-> "memory", w |-> w, h |-> h, f |-> f, d |-> <<>>, sure |-> TRUE]
BInit == t = <<>> /\ n = MaxBytes /\ \E h \in { <<137, 80, 78, 71>>, <<255, 216, 255, 224>>, <<255, 216, 255, 225>>, <<255, 216, 255, 219>> } : im = [k |-> "buffer", f |-> IF h[1] = 137 THEN 1 ELSE 2, d |-> h, sure |-> TRUE]
Want == IF im.k = "memory" THEN im.w * im.h * im.f ELSE 4 + MaxBytes
INext == UNCHANGED <<t, n>> /\ Len(im.d) < Want /\ \E b \in (IF Len(im.d) > 4 THEN {0, 129, 255} ELSE Bs) : im' = [im EXCEPT !.d = Append(@, b)]
Done == im.k \in {"memory", "buffer"} /\ (IF im.k = "memory" THEN Len(im.d) = Want ELSE Len(im.d) > 4)
Round == Done => /\ Same(Read(Text(im)), im) /\ Read(Text(im)).sure /\ Dec(Enc(im.d)).d = im.d
IEmit == Done => PrintT(<<"I", ToJson([k |-> im.k, w |-> IF im.k = "memory" THEN im.w ELSE 0, h |-> IF im.k = "memory" THEN im.h ELSE 0, f |-> im.f, d |-> im.d])>>)

\* texts
Starts == [empty |-> <<>>, image |-> B("image:"), rgb |-> B("image:1;1;rgb;"), gray |-> B("image:2;2;gray8;"), wide |-> B("image:1;2;gray16;"), data |-> B("data:"), jpeg |-> B("data:image/jpeg;"), png |-> B("data:image/png;"), file |-> B("file:"), http |-> B("http:"), filed |-> B("filed:"), dotted |-> B("a-b.c+d:")]
Pools == [
   b64 |-> << B("A"), B("Q"), B("/"), B("="), B("-"), B("AAAA"), B("x w"), B(";") >>,
   head |-> << B("1;"), B("2;"), B("0;"), B("-1;"), B("+1;"), B(" 1;"), B(";"), B("rgb;"), B("gray8;"), B("gray16;"), B("RGB;"), B("yuv;"), B("AAAA"), B("AQ=="), B("7") >>,
   uri |-> << B("file"), B("image"), B("http"), B("data"), B(":"), B("//"), B("/"), B("C"), B("x"), B("2"), B("+"), B("_"), B(" "), <<233>>, B("abcdefghijklmno") >>,
   path |-> << B("/"), B("//"), B("."), B(".."), B(":"), B("a"), B("C:"), B("file:"), B("data:"), B("\\"), B(" "), B("%2F"), B("~"), B("?"), B("#"), B(","), B("="), <<34>>, <<10>> >>,
   type |-> << B("image/jpeg"), B("image/png"), B("image/gif"), B(";"), B("base64;"), B("AAAA"), B("IMAGE/PNG"), B("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa") >>
   ]
Nothing == [k |-> "none"]
TInit == im = Nothing /\ t = Starts[Start] /\ n = 0
TNext == n < MaxPieces /\ n' = n + 1 /\ im' = im /\ \E p \in DOMAIN Pools[Pool] : t' = t \o Pools[Pool][p]
TEmit == PrintT(<<"T", ToJson([s |-> t, r |-> Read(t)])>>)
\* what a text means has a text of its own that means the same (paths that look like something else excepted)
Fixed == LET r == Read(t) IN r.k \in {"memory", "buffer", "path"} => Same(Read(Text(r)), r)

\* images by name: every text is a path; a text behind a scheme of its own is a URL
Named == [k |-> IF Start = "empty" THEN "path" ELSE "url", v |-> t, sure |-> TRUE]
Kept == Same(Read(Text(Named)), Named) /\ Read(Text(Named)).sure
NEmit == PrintT(<<"N", ToJson([k |-> Named.k, v |-> t])>>)
=============================================================================
