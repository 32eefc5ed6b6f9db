------------------------------- MODULE Setup -------------------------------
(* The introduction of a session.  A server declares what it can do (decl), announces it in one hello message
   (Hello), and the client reports what it understood (Report).  Text entries are byte strings or NoText.   *)
EXTENDS Wire

RegionFmts == << <<2, B("rectangle")>>, <<4, B("polygon")>>, <<8, B("mask")>> >>
ImageFmts == << <<1, B("path")>>, <<2, B("url")>>, <<4, B("memory")>>, <<8, B("buffer")>> >>
ChannelNames == << <<1, B("color")>>, <<2, B("depth")>>, <<4, B("ir")>> >>
Latest == 4
KVer == B("trax.version")  KRf == B("trax.region")  KIf == B("trax.image")  KCh == B("trax.channels")  KName == B("trax.name")  KDesc == B("trax.description")  KFam == B("trax.family")  KMulti == B("trax.multiobject")  KTrax == B("trax.")
NoText == <<256>>      \* no byte string
Bit(m, b) == (m \div b) % 2 = 1

\* names of the set bits of a mask, each followed by a semicolon
ListOf(table, mask) == FoldLeft(LAMBDA a, e : IF Bit(mask, e[1]) THEN a \o e[2] \o <<59>> ELSE a, <<>>, table)
\* what a list means: the known names in it.  exact is FALSE if it is not in the documented form (blanks, other case)
Elements(t) == SelectSeq(SplitAt(t, 59), LAMBDA e : e # <<>>)
BitOf(table, name) == LET s == {i \in DOMAIN table : table[i][2] = name} IN IF s = {} THEN 0 ELSE table[CHOOSE i \in s : TRUE][1]
MaskOf(table, t) == FoldLeft(LAMBDA a, e : a + (IF \E i \in DOMAIN Elements(t) : Elements(t)[i] = e[2] THEN e[1] ELSE 0), 0, table)
Strip(t) == SelectSeq(t, LAMBDA c : c # SP)
Plain(table, t) == \A i \in DOMAIN Elements(t) : LET e == Elements(t)[i] IN BitOf(table, LowerSeq(Strip(e))) = BitOf(table, e)

\* the map the hello message of a declaration carries
Opt(m, k, v) == IF v = NoText THEN m ELSE MapPut(m, k, v)
Version(d) == IF d.ver < 1 THEN Latest ELSE d.ver
Hello(d) ==
    LET m0 == d.custom
        m1 == MapPut(MapPut(m0, KVer, DecStr(Version(d))), KRf, ListOf(RegionFmts, d.rf))
        m2 == MapPut(MapPut(m1, KIf, ListOf(ImageFmts, d.if)), KCh, ListOf(ChannelNames, d.ch))
        m3 == Opt(Opt(Opt(m2, KName, d.name), KDesc, d.desc), KFam, d.family)
    IN IF d.multi /\ Version(d) >= 4 THEN MapPut(m3, KMulti, <<49>>) ELSE m3

RECURSIVE Num(_, _)
Num(t, a) == IF t = <<>> THEN a ELSE Num(Tail(t), 10 * a + t[1] - 48)
IsNum(t) == t # <<>> /\ Len(t) <= 6 /\ \A i \in DOMAIN t : IsDigit(t[i])
\* texts that are no numbers for certain: they do not begin like one
NoNum(t) == t = <<>> \/ (\A i \in DOMAIN t : IsLower(t[i]) /\ t[i] \notin {105, 110})
Entry(m, k) == IF MapHas(m, k) THEN MapGet(m, k) ELSE NoText

\* What the client reports about a hello message.  exact: which entries are settled by the documentation
Report(m) ==
    LET v == Entry(m, KVer)  r == Entry(m, KRf)  i == Entry(m, KIf)  c == Entry(m, KCh)  mo == Entry(m, KMulti)
        ver == IF v = NoText \/ ~IsNum(v) THEN 1 ELSE Num(v, 0)
        cm == IF c = NoText \/ ver < 2 THEN 1 ELSE LET x == MaskOf(ChannelNames, c) IN IF x = 0 THEN 1 ELSE x
    IN [ver |-> ver,
        rf |-> IF r = NoText THEN 2 ELSE MaskOf(RegionFmts, r),
        if |-> IF i = NoText THEN 1 ELSE MaskOf(ImageFmts, i),
        ch |-> cm,
        multi |-> ver > 3 /\ mo # NoText /\ IsNum(mo) /\ Num(mo, 0) # 0,
        name |-> Entry(m, KName), desc |-> Entry(m, KDesc), family |-> Entry(m, KFam),
        custom |-> SelectSeq(m, LAMBDA e : ~StartsWith(e[1], KTrax)),
        exact |-> [ver |-> v = NoText \/ NoNum(v) \/ (IsNum(v) /\ Num(v, 0) \in 1..Latest),
                   rf |-> r = NoText \/ Plain(RegionFmts, r), if |-> i = NoText \/ Plain(ImageFmts, i), ch |-> c = NoText \/ Plain(ChannelNames, c),
                   multi |-> mo = NoText \/ NoNum(mo) \/ IsNum(mo)]]

\* a message that introduces a tracker
IsIntro(msg) == msg.ok /\ msg.type = "hello" /\ msg.args = <<>>
\* what the client makes of the bytes that arrive at the very beginning of a session: the first message decides
Intro(stream) == LET ms == Messages(stream) IN IF ms = <<>> \/ ~IsIntro(ms[1]) THEN [ok |-> FALSE] ELSE [ok |-> TRUE, rep |-> Report(ms[1].props)]
\* bytes that announce exactly a declaration
Announces(stream, d) == LET ms == Messages(stream) IN
    Len(ms) = 1 /\ Lines(stream) # <<>> /\ LastPiece(stream) = <<>> /\ Len(Lines(stream)) = 1 /\ IsIntro(ms[1]) /\ MapEq(ms[1].props, Hello(d))
=============================================================================
