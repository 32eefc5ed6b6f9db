------------------------------- MODULE Wire --------------------------------
(* The message layer: one protocol message is one line
       @@TRAX:<name> <arg> ... <key>=<value> ...
   This module says what a line means by itself (LineMsg), what an endpoint receives from a byte stream
   (Messages: every line is interpreted on its own), and what the writer emits (Encode).            *)
EXTENDS Bytes

Prefix == B("@@TRAX:")
TypeNames == << <<B("hello"), "hello">>, <<B("initialize"), "initialize">>, <<B("state"), "state">>,
                <<B("status"), "state">>, <<B("frame"), "frame">>, <<B("quit"), "quit">> >>
TypeOf(name) == LET i == MapIdx(TypeNames, LowerSeq(name), 1) IN IF i = 0 THEN "none" ELSE TypeNames[i][2]

MaxKey == 64
ValidKey(k) == Len(k) <= MaxKey /\ \A i \in DOMAIN k : IsAlnum(k[i]) \/ k[i] \in {46, 95}

NoMsg == [ok |-> FALSE, type |-> "none", args |-> <<>>, props |-> <<>>]

\* Scans one token from position i of line s.  q: quoted.  iskey: still in the part that may become a key.
\* Returns [ok, end, prop, key, val]: end is the position after the token.
RECURSIVE Scan(_, _, _, _, _, _)
Scan(s, i, q, isval, key, val) ==
    IF i > Len(s)
    THEN [ok |-> ~q, end |-> i, prop |-> isval, key |-> key, val |-> val]        \* an open quote at the end of the line is malformed
    ELSE LET c == s[i]
             put(x, n) == IF isval THEN Scan(s, n, q, TRUE, key, Append(val, x)) ELSE Scan(s, n, q, FALSE, Append(key, x), val)
         IN CASE c = BS -> IF i + 1 > Len(s) THEN [ok |-> FALSE, end |-> i, prop |-> FALSE, key |-> <<>>, val |-> <<>>]
                           ELSE put(IF s[i + 1] = LN THEN NL ELSE s[i + 1], i + 2)
              [] q /\ c = QT -> [ok |-> TRUE, end |-> i + 1, prop |-> isval, key |-> key, val |-> val]
              [] ~q /\ c = SP -> [ok |-> TRUE, end |-> i + 1, prop |-> isval, key |-> key, val |-> val]
              [] ~isval /\ c = EQ /\ ValidKey(key) -> Scan(s, i + 1, q, TRUE, key, <<>>)
              [] OTHER -> put(c, i + 1)

RECURSIVE Tokens(_, _, _)
Tokens(s, i, m) ==
    IF i > Len(s) THEN m
    ELSE IF s[i] \in {SP, CR} THEN Tokens(s, i + 1, m)
    ELSE LET q == s[i] = QT
             \* the first byte of an unquoted word is taken literally (it is neither an escape nor '=')
             t == IF q THEN Scan(s, i + 1, TRUE, FALSE, <<>>, <<>>) ELSE Scan(s, i + 1, FALSE, FALSE, <<s[i]>>, <<>>)
         IN IF ~t.ok THEN NoMsg
            ELSE IF q /\ t.end <= Len(s) /\ s[t.end] # SP THEN NoMsg          \* a quoted word must be followed by a space or the line end
            ELSE Tokens(s, IF q THEN t.end + 1 ELSE t.end,
                        IF t.prop THEN [m EXCEPT !.props = MapPut(@, t.key, t.val)] ELSE [m EXCEPT !.args = Append(@, t.key)])

NameEnd(s, i) == LET RECURSIVE E(_) E(k) == IF k <= Len(s) /\ IsAlnum(s[k]) THEN E(k + 1) ELSE k IN E(i)

\* The meaning of one complete line (without its newline).
LineMsg(s) ==
    IF ~StartsWith(s, Prefix) THEN NoMsg
    ELSE LET b == Len(Prefix) + 1  e == NameEnd(s, b)  ty == TypeOf(SubSeq(s, b, e - 1))
         IN IF ty = "none" \/ (e <= Len(s) /\ s[e] # SP) THEN NoMsg
            ELSE Tokens(s, e + 1, [ok |-> TRUE, type |-> ty, args |-> <<>>, props |-> <<>>])

\* A stream is a sequence of complete lines and a last piece without a newline.
Lines(stream) == LET p == SplitAt(stream, NL) IN Take(p, Len(p) - 1)
LastPiece(stream) == LET p == SplitAt(stream, NL) IN p[Len(p)]
Messages(stream) == SelectSeq([i \in DOMAIN Lines(stream) |-> LineMsg(Lines(stream)[i])], LAMBDA m : m.ok)

\* After the end of the stream the unterminated last piece may count as a line; if it does not form a
\* message it is dropped.  (An implementation may also refuse it altogether.)
FinalMsg(stream) == IF LastPiece(stream) = <<>> THEN NoMsg ELSE LineMsg(LastPiece(stream))

---------------------------------------------------------------------------
(* The writer. *)
EscByte(c) == IF c = NL THEN <<BS, LN>> ELSE IF c \in {QT, BS} THEN <<BS, c>> ELSE <<c>>
Esc(s) == FoldLeft(LAMBDA a, c : a \o EscByte(c), <<>>, s)
EncArgs(as) == FoldLeft(LAMBDA a, x : a \o <<QT>> \o Esc(x) \o <<QT, SP>>, <<>>, as)
EncProps(ps) == FoldLeft(LAMBDA a, e : a \o <<QT>> \o e[1] \o <<EQ>> \o Esc(e[2]) \o <<QT, SP>>, <<>>, ps)
EncodeLine(m) == Prefix \o B(m.type) \o <<SP>> \o EncArgs(m.args) \o EncProps(m.props)
Encode(m) == Append(EncodeLine(m), NL)

\* Arguments the library itself produces never look like key=value.
ArgSafe(a) == \A i \in DOMAIN a : a[i] = EQ => ~ValidKey(Take(a, i - 1))
Sendable(m) == /\ \A i \in DOMAIN m.args : ArgSafe(m.args[i]) /\ \A j \in DOMAIN m.args[i] : m.args[i][j] # 0
               /\ \A i \in DOMAIN m.props : ValidKey(m.props[i][1])

---------------------------------------------------------------------------
(* The reader as an automaton over bytes: the state an endpoint keeps between two bytes.  It is the
   operational counterpart of LineMsg; WireMC checks that the two agree.                           *)
RStart == [st |-> "prefix", n |-> 0, type |-> "none", key |-> <<>>, val |-> <<>>, args |-> <<>>, props |-> <<>>]
RPass == [RStart EXCEPT !.st = "pass"]
RMsg(r) == [ok |-> TRUE, type |-> r.type, args |-> r.args, props |-> r.props]
RStep(r, c) ==   \* <<next state, emitted message or NoMsg>>
    LET no(x) == <<x, NoMsg>>
        bad == no(IF c = NL THEN RStart ELSE RPass)
        arg(x) == [x EXCEPT !.args = Append(@, x.key), !.key = <<>>, !.val = <<>>]
        prop(x) == [x EXCEPT !.props = MapPut(@, x.key, x.val), !.key = <<>>, !.val = <<>>]
        fin(x) == <<RStart, RMsg(x)>>
    IN CASE r.st = "prefix" -> IF c = Prefix[r.n + 1]
                               THEN no(IF r.n + 1 = Len(Prefix) THEN [RStart EXCEPT !.st = "type"] ELSE [r EXCEPT !.n = @ + 1]) ELSE bad
         [] r.st = "pass" -> bad
         [] r.st = "type" -> IF IsAlnum(c) THEN no([r EXCEPT !.key = Append(@, c)])
                             ELSE LET t == TypeOf(r.key) x == [RStart EXCEPT !.type = t, !.st = "space"]
                                  IN IF c \notin {SP, NL} \/ t = "none" THEN bad ELSE IF c = NL THEN fin(x) ELSE no(x)
         [] r.st = "expect" -> IF c = SP THEN no([r EXCEPT !.st = "space"]) ELSE IF c = NL THEN fin(r) ELSE bad
         [] r.st = "space" -> IF c \in {SP, CR} THEN no(r) ELSE IF c = NL THEN fin(r)
                              ELSE IF c = QT THEN no([r EXCEPT !.st = "qkey"]) ELSE no([r EXCEPT !.st = "ukey", !.key = <<c>>])
         [] r.st \in {"ukey", "qkey"} ->
              LET q == r.st = "qkey" IN
              IF c = BS THEN no([r EXCEPT !.st = IF q THEN "qkesc" ELSE "ukesc"])
              ELSE IF c = NL THEN (IF q THEN bad ELSE fin(arg(r)))
              ELSE IF q /\ c = QT THEN no([arg(r) EXCEPT !.st = "expect"])
              ELSE IF ~q /\ c = SP THEN no([arg(r) EXCEPT !.st = "space"])
              ELSE IF c = EQ /\ ValidKey(r.key) THEN no([r EXCEPT !.st = IF q THEN "qval" ELSE "uval"])
              ELSE no([r EXCEPT !.key = Append(@, c)])
         [] r.st \in {"uval", "qval"} ->
              LET q == r.st = "qval" IN
              IF c = BS THEN no([r EXCEPT !.st = IF q THEN "qvesc" ELSE "uvesc"])
              ELSE IF c = NL THEN (IF q THEN bad ELSE fin(prop(r)))
              ELSE IF q /\ c = QT THEN no([prop(r) EXCEPT !.st = "expect"])
              ELSE IF ~q /\ c = SP THEN no([prop(r) EXCEPT !.st = "space"])
              ELSE no([r EXCEPT !.val = Append(@, c)])
         [] r.st \in {"ukesc", "qkesc"} -> IF c = NL THEN bad
                                           ELSE no([r EXCEPT !.key = Append(@, IF c = LN THEN NL ELSE c), !.st = IF @ = "qkesc" THEN "qkey" ELSE "ukey"])
         [] r.st \in {"uvesc", "qvesc"} -> IF c = NL THEN bad
                                           ELSE no([r EXCEPT !.val = Append(@, IF c = LN THEN NL ELSE c), !.st = IF @ = "qvesc" THEN "qval" ELSE "uval"])
=============================================================================
