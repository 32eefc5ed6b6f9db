------------------------------ MODULE WireMC -------------------------------
(* Model checking of the message layer.
   Reading: one byte of a line is consumed per step.  Agree: whenever a newline would end the line now, the
   automaton emits exactly the message LineMsg gives to the line and is back in its initial state; since the
   automaton carries nothing else, every stream is read as its lines, each on its own.
   Writing: every message over the chosen alphabet is encoded and read back.                        *)
EXTENDS Wire, FiniteSets
CONSTANTS MaxLen,        \* bytes after the fixed beginning
          ArgAlphabet, MaxArg, MaxArgs
VARIABLES line, r

Starts == {Prefix, Prefix \o B("frame "), Prefix \o B("quit \""), Prefix \o B("frame k="), Prefix \o B("frame \"k=")}
Alphabet == {SP, QT, BS, NL, CR, EQ, LN, 97, 46, 195}
Run(s) == FoldLeft(LAMBDA a, c : RStep(a, c)[1], RStart, s)

Init == \E s \in Starts \cup {<<>>, Take(Prefix, 3)} : line = s /\ r = Run(s)
Next == /\ Len(line) < 20
        /\ \E c \in Alphabet \ {NL} : /\ line' = Append(line, c) /\ r' = RStep(r, c)[1]
Bound == TLCGet("level") <= MaxLen
Agree == LET e == RStep(r, NL) IN /\ e[1] = RStart
                                  /\ IF LineMsg(line).ok THEN e[2] = LineMsg(line) ELSE ~e[2].ok
\* nothing is emitted before the newline
NoEarly == \A c \in Alphabet \ {NL} : ~RStep(r, c)[2].ok

\* round trip, cut streams
Words(n) == UNION {[1..k -> ArgAlphabet] : k \in 0..n}
SmallMsgs == {[ok |-> TRUE, type |-> t, args |-> a, props |-> p] :
    t \in {"frame", "hello"}, a \in UNION {[1..k -> {w \in Words(MaxArg) : ArgSafe(w)}] : k \in 0..MaxArgs},
    p \in {<<>>} \cup {<< <<B("k"), w>> >> : w \in Words(MaxArg)} \cup {<< <<B("a.b_1"), w>>, <<B("z"), <<EQ, QT>> >> >> : w \in Words(1)}}
RoundTrip == \A m \in SmallMsgs : LineMsg(EncodeLine(m)) = m /\ Messages(Encode(m) \o Encode(m)) = <<m, m>>
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ a = Take(b, Len(a))
\* A cut message is refused or reported with a prefix of its arguments and entries, none of them in part.
Cut == \A m \in SmallMsgs : \A k \in 0..Len(EncodeLine(m)) :
         LET f == FinalMsg(Take(EncodeLine(m), k)) IN
         ~f.ok \/ (f.type = m.type /\ IsPrefixOf(f.args, m.args) /\ IsPrefixOf(f.props, m.props))
ASSUME RoundTrip
ASSUME Cut
=============================================================================
