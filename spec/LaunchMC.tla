------------------------------ MODULE LaunchMC ------------------------------
(* Exploration of Launch: all command lines over a small alphabet, all ways to write words, and the life of
   the client's working directory and of its launches.                                                  *)
EXTENDS Launch
CONSTANTS MaxLen, MaxWords
VARIABLES c, out
Alphabet == { SP, QT, 97, AP, 92 }
CInit == c = <<>> /\ out = <<>>
CNext == Len(c) < MaxLen /\ \E x \in Alphabet : c' = Append(c, x) /\ UNCHANGED out
CEmit == (Clear(c) /\ Split(c) # Bad) => PrintT(<<"C", ToJson([c |-> c, w |-> Split(c)])>>)
BEmit == (Clear(c) /\ Split(c) = Bad) => PrintT(<<"X", ToJson([c |-> c])>>)
\* words never hold quotes, and only quoted words hold spaces
Shape == LET w == Split(c) IN w # Bad => /\ Len(w) > 0
                                         /\ \A i \in DOMAIN w : Find(w[i], QT, 1) = 0 \/ ~Clear(c)
                                         /\ FoldLeft(LAMBDA n, x : n + Len(x), 0, w) <= Len(c)
\* spaces around a command line make no difference
Padding == \A n \in 0..2, m \in 0..2 : Split(Spaces(n) \o c \o Spaces(m)) = Split(c) \/ Split(c) = Bad

\* ---- every way to write words is understood as these words
WordSet == { <<>>, <<97>>, <<97, 98>>, <<SP>>, <<97, SP, 98>>, <<AP, 97>>, <<92>>, <<SP, SP>> }
WInit == c = <<>> /\ out \in UNION { [1..n -> WordSet] : n \in 1..MaxWords }
WNext == FALSE /\ UNCHANGED <<c, out>>
Understood == \A qs \in [DOMAIN out -> BOOLEAN], gaps \in [DOMAIN out -> 0..1] : /\ Split(Join(out, qs, gaps, 1)) = out
                                                                                  /\ Split(Join(out, qs, gaps, 1) \o Spaces(gaps[1])) = out
                                                                                  /\ Clear(Join(out, qs, gaps, 1))
=============================================================================
