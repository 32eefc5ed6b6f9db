------------------------------ MODULE SetupMC ------------------------------
(* Enumeration of declarations (DInit), of hello messages with missing, unknown and repeated entries (HInit)
   and of first messages that are no introduction (XInit).                                            *)
EXTENDS Setup, Json
CONSTANTS MaxList, Field
VARIABLES d, m, done

Texts == { NoText, <<>>, B("x"), B("a b"), B("q\"q"), B("back\\slash\\n"), <<10>>, <<195, 169, 255>>, B("k=v"), B("trax.version=1") }
Customs == { <<>>, << <<B("a"), B("1")>> >>, << <<B("key_1"), <<>> >>, <<B("x.y"), B("two words")>> >>, << <<B("trax"), B("t")>>, <<B("traxx.name"), <<10, 92, 34>> >> >> }
\* all combinations of what is not text; texts vary along
Blank == [ver |-> 0, rf |-> 14, if |-> 15, ch |-> 3, multi |-> TRUE, name |-> NoText, desc |-> B("d"), family |-> <<>>, custom |-> <<>>]
DInit == m = <<>> /\ done = FALSE /\ \E ver \in 0..4, rf \in 0..15 : d = [Blank EXCEPT !.ver = ver, !.rf = rf]
DNext == ~done /\ done' = TRUE /\ m' = m /\ \E im \in 0..15, ch \in 1..7, multi \in BOOLEAN : d' = [d EXCEPT !.if = im, !.ch = ch, !.multi = multi]
\* all combinations of texts for a few shapes
EInit == m = <<>> /\ done = FALSE /\ \E ver \in {1, 3, 4}, name \in Texts : d = [Blank EXCEPT !.ver = ver, !.name = name]
ENext == ~done /\ done' = TRUE /\ m' = m /\ \E desc \in Texts, fam \in Texts, cus \in Customs : d' = [d EXCEPT !.desc = desc, !.family = fam, !.custom = cus]
Still == FALSE /\ UNCHANGED <<d, m, done>>
\* what was declared is what is reported; only the bits that exist are announced
Faithful == LET r == Report(Hello(d)) IN
    /\ r.ver = Version(d) /\ r.rf = (d.rf \div 2) * 2 /\ r.if = d.if /\ (r.ch = IF Version(d) < 2 THEN 1 ELSE d.ch) /\ (r.multi = (d.multi /\ Version(d) >= 4))
    /\ r.name = d.name /\ r.desc = d.desc /\ r.family = d.family /\ MapEq(r.custom, d.custom)
    /\ \A k \in DOMAIN r.exact : r.exact[k]
OnWire == Announces(Encode([type |-> "hello", args |-> <<>>, props |-> Hello(d)]), d)
DEmit == done => PrintT(<<"D", ToJson([d |-> d, r |-> Report(Hello(d))])>>)

\* hello messages, one entry more in every step
Names(f) == CASE f = "trax.region" -> {B("rectangle"), B("polygon"), B("mask"), B("point"), B("Mask"), B("special"), B(" mask"), <<>>}
              [] f = "trax.image" -> {B("path"), B("url"), B("memory"), B("buffer"), B("data"), B("pathx"), B("memory "), <<>>}
              [] OTHER -> {B("color"), B("depth"), B("ir"), B("rgb"), B("irr"), B("co"), <<>>}
Lists(f) == UNION { [1..n -> Names(f)] : n \in 0..MaxList }
Join(s, last) == FoldLeft(LAMBDA a, i : a \o s[i] \o (IF i = Len(s) /\ ~last THEN <<>> ELSE <<59>>), <<>>, [i \in 1..Len(s) |-> i])
HInit == d = 0 /\ done = FALSE /\ m \in { << <<B("trax.version"), B("4")>> >>, << <<B("trax.version"), B("1")>> >>, << <<B("trax.version"), B("2")>> >> }
HNext == ~done /\ done' = TRUE /\ d' = d /\ \E s \in Lists(Field), last \in BOOLEAN, k \in BOOLEAN :
            m' = IF k THEN Append(m, <<B(Field), Join(s, last)>>) ELSE << <<B(Field), Join(s, last)>> >> \o m
\* every subset of the entries
KZ == B("zz")
Small == [ver |-> {B("1"), B("2"), B("3"), B("4"), B("x"), <<>>, B("05"), B("7"), B("4x")}, multi |-> {B("1"), B("0"), B("yes"), <<>>, B("2"), B("1.5")}]
SInit == d \in (Small.ver \cup {NoText}) /\ done = FALSE /\ m = <<>>
SNext == ~done /\ done' = TRUE /\ d' = d /\ \E v \in {d}, mo \in Small.multi \cup {NoText}, r \in {NoText, <<>>, B("mask;")}, i \in {NoText, <<>>, B("url;buffer;")}, c \in {NoText, <<>>, B("ir;"), B("foo;")}, n \in {NoText, B("n")}, z \in {NoText, B("zz")} :
            m' = Opt(Opt(Opt(Opt(Opt(Opt(Opt(<<>>, KCh, c), KZ, z), KMulti, mo), KIf, i), KVer, v), KRf, r), KName, n)
HEmit == done => PrintT(<<"H", ToJson([m |-> m, r |-> Report(m)])>>)
\* nothing that was not named is taken as supported
NoExtra == \A f \in {<<KRf, RegionFmts, "rf">>, <<KIf, ImageFmts, "if">>} :
             Entry(m, f[1]) # NoText => \A i \in DOMAIN f[2] : Bit(Report(m)[f[3]], f[2][i][1]) => \E e \in ToSet(Elements(Entry(m, f[1]))) : e = f[2][i][2]

\* first messages
Firsts == << B("@@TRAX:hello"), B("@@TRAX:hello x"), B("@@TRAX:hello \"\""), B("@@TRAX:hello \"trax.version=3\""), B("@@TRAX:Hello trax.version=2 a=b"), B("@@TRAX:quit"), B("@@TRAX:quit trax.version=4"),
             B("@@TRAX:state \"1,2,3,4\""), B("@@TRAX:initialize"), B("@@TRAX:frame"), B("@@TRAX:hell"), B("@@TRAX:hellooo"), B("@@TRAX:bye trax.version=3"), B("noise"), <<>>, B("@TRAX:hello"), B("x@@TRAX:hello"),
             B("@@TRAX:hello \"trax.name=a\"b"), B("@@TRAX:hello trax.version=4 trax.multiobject=1 trax.region=mask; trax.image=url;"), B("@@TRAX: hello"), B("@@TRAX:hello trax.version=4 word") >>
XInit == d = 0 /\ done = FALSE /\ m = <<>>
XNext == ~done /\ d' = d + 1 /\ done' = (d + 1 >= MaxList) /\ \E i \in DOMAIN Firsts : m' = m \o Firsts[i] \o <<10>>
XEmit == m # <<>> => PrintT(<<"X", ToJson([s |-> m, r |-> Intro(m)])>>)
TRUEINV == TRUE
=============================================================================
