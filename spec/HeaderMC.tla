------------------------------ MODULE HeaderMC ------------------------------
(* Files composed segment by segment; whatever precedes the frame header, the size is found.            *)
EXTENDS Header, Json
CONSTANTS MaxSegs
VARIABLES t, kind, size, n, done
Sizes == { << 12, 10 >>, << 17, 21 >>, << 300, 7 >>, << 9, 270 >> }
Word(x) == << x \div 256, x % 256 >>
Seg(m, d) == << 255, m >> \o Word(Len(d) + 2) \o d
\* a small picture inside of another segment, a table that looks like a frame header, comments, padding
Decoy == << 255, 216, 255, 192, 0, 11, 8, 0, 3, 0, 4, 1, 1, 17, 0, 255, 217 >>
Segs == << Seg(224, B("JFIF") \o << 0, 1, 1, 0, 0, 1, 0, 1, 0, 0 >>), Seg(225, B("Exif") \o << 0, 0, 255, 192, 0, 11, 8, 0, 2, 0, 2 >> \o Decoy), Seg(254, B("note")), Seg(254, << >>),
           Seg(219, << 0 >> \o [i \in 1..64 |-> (7 * i) % 256]), Seg(196, Decoy), Seg(204, << 0, 16 >>), Seg(200, << 8, 0, 1, 0, 1, 1 >>), << 255 >>, Seg(221, << 0, 4 >>) >>
Frame(m, w, h) == Seg(m, << 8 >> \o Word(h) \o Word(w) \o << 1, 1, 17, 0 >>)
Init == /\ size \in Sizes /\ n = 0 /\ kind \in {"jpeg", "png", "gif"} /\ done = FALSE
        /\ t = CASE kind = "jpeg" -> << 255, 216 >>
                 [] kind = "png" -> PngMark \o << 0, 0, 0, 13 >> \o B("IHDR") \o << 0, 0 >> \o Word(size[1]) \o << 0, 0 >> \o Word(size[2]) \o << 8, 2, 0, 0, 0 >>
                 [] OTHER -> B("GIF89a") \o << size[1] % 256, size[1] \div 256, size[2] % 256, size[2] \div 256 >> \o [i \in 1..20 |-> i]
Next == /\ kind = "jpeg" /\ ~done /\ UNCHANGED << kind, size >>
        /\ \/ n < MaxSegs /\ n' = n + 1 /\ done' = FALSE /\ \E i \in DOMAIN Segs : (n = 0 => Segs[i] # << 255 >>) /\ t' = t \o Segs[i]
           \/ n' = n /\ done' = TRUE /\ \E m \in {192, 193, 194, 197, 201, 207} : t' = t \o Frame(m, size[1], size[2]) \o << 255, 218, 0, 8, 1, 1, 0, 0, 63, 0 >>
Whole == kind # "jpeg" \/ done
Found == Whole => Size(t) = size
Emit == Whole => PrintT(<<"H", ToJson([k |-> kind, s |-> size, t |-> t])>>)
=============================================================================
