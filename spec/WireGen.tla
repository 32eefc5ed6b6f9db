------------------------------ MODULE WireGen ------------------------------
(* Enumerates byte strings and lines for the conformance checks of the message layer.  A behaviour builds a
   line piece by piece; every line reached is emitted with the meaning the specification gives to it.   *)
EXTENDS Wire, Json
CONSTANTS Start, Pool, MaxN
VARIABLES line, n

Heads == [frame |-> B("@@TRAX:frame \"file://p\" "), state |-> B("@@TRAX:state \"1,2,3,4\" "), hello |-> B("@@TRAX:hello "), none |-> <<>>,
          prefix |-> Prefix, word |-> B("@@TRAX:frame "), quoted |-> B("@@TRAX:frame \""), valued |-> B("@@TRAX:frame \"file://p\" \"k="), quit |-> B("@@TRAX:quit ")]
Pools == [
  \* bytes that matter to the message syntax, and representatives of the rest
  bytes |-> << <<SP>>, <<QT>>, <<BS>>, <<NL>>, <<CR>>, <<EQ>>, <<LN>>, <<97>>, <<46>>, <<195>>, <<255>>, <<1>> >>,
  \* tails of a message: pieces of arguments and entries, well formed or not
  tail |-> << <<SP>>, <<QT>>, <<BS>>, <<EQ>>, <<LN>>, <<CR>>, B("k"), B("a.b"), B("\"k=v\" "), B("\"x\""), <<255>>, B("@@TRAX:quit"), B("-") >>,
  small |-> << <<SP>>, <<QT>>, <<BS>>, <<EQ>>, B("k"), B("\"z=\"") >>,
  \* beginnings of lines
  begin |-> << <<SP>>, <<64>>, B("@@TRAX:"), B("@@TRAX"), B("@@trax:"), B("frame"), B("FRAME"), B("stat"), B("e"), B("us"), B("hello"), B("initialize"), B(" \"file://p\" "), B(";"), <<QT>>, <<195>>, <<0 + 9>> >>
  ]
Init == line = Heads[Start] /\ n = 0
Next == n < MaxN /\ n' = n + 1 /\ \E k \in DOMAIN Pools[Pool] : line' = line \o Pools[Pool][k]
Emit == PrintT(<<"L", ToJson([s |-> line, m |-> LineMsg(line)])>>)
EmitBytes == PrintT(<<"L", ToJson(line)>>)
\* the encoder and the reader agree on whatever is generated as a value
RoundTripAll == LET m == [ok |-> TRUE, type |-> "frame", args |-> << B("x:") \o line >>, props |-> << <<B("k"), line>> >>] IN
                0 \in {line[i] : i \in DOMAIN line} \/ LineMsg(EncodeLine(m)) = m
=============================================================================
