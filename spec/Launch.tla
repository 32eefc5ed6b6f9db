------------------------------- MODULE Launch -------------------------------
(* Launching a tracker: how its command line is understood, which environment it gets, and that the client's
   own working directory survives the launch.                                                            *)
EXTENDS Bytes, Json

AP == 39        \* apostrophe
Bad == << <<-1>> >>

\* ---- command line: words are separated by spaces, a word that begins with a quote reaches to the next quote
RECURSIVE FirstOther(_, _)
FirstOther(c, i) == IF i > Len(c) THEN 0 ELSE IF c[i] # SP THEN i ELSE FirstOther(c, i + 1)
RECURSIVE Words(_, _, _)
Words(c, i, acc) ==
  LET s == FirstOther(c, i) IN
  IF s = 0 THEN acc
  ELSE IF c[s] = QT THEN LET e == Find(c, QT, s + 1) IN IF e = 0 THEN Bad ELSE Words(c, e + 1, Append(acc, SubSeq(c, s + 1, e - 1)))
  ELSE LET e == Find(c, SP, s) IN IF e = 0 THEN Append(acc, Drop(c, s - 1)) ELSE Words(c, e + 1, Append(acc, SubSeq(c, s, e - 1)))
Split(c) == LET w == Words(c, 1, <<>>) IN IF w = <<>> THEN Bad ELSE w

(* The words of a command line are certain unless a quote occurs inside of an unquoted word, a word follows a
   closing quote without a space or an apostrophe stands before a quote.                                  *)
RECURSIVE ClearFrom(_, _)
ClearFrom(c, i) ==
  LET s == FirstOther(c, i) IN
  IF s = 0 THEN TRUE
  ELSE IF c[s] = QT THEN LET e == Find(c, QT, s + 1) IN e = 0 \/ (c[e - 1] # AP /\ (e = Len(c) \/ c[e + 1] = SP) /\ ClearFrom(c, e + 1))
  ELSE LET e == Find(c, SP, s) w == SubSeq(c, s, IF e = 0 THEN Len(c) ELSE e - 1) IN Find(w, QT, 1) = 0 /\ (e = 0 \/ ClearFrom(c, e + 1))
\* an apostrophe before the last quote of an unfinished word leaves it open what the word is
Clear(c) == ClearFrom(c, 1) /\ \A i \in 1..Len(c) - 1 : ~(c[i] = AP /\ c[i + 1] = QT)

\* ---- the inverse: how a caller writes words
Plain(w) == w # <<>> /\ Find(w, SP, 1) = 0 /\ Find(w, QT, 1) = 0
Writable(w) == Find(w, QT, 1) = 0 /\ (w = <<>> \/ w[Len(w)] # AP)
Written(w, q) == IF q \/ ~Plain(w) THEN <<QT>> \o w \o <<QT>> ELSE w
Spaces(n) == [i \in 1..n |-> SP]
RECURSIVE Join(_, _, _, _)
Join(ws, qs, gaps, i) == IF i > Len(ws) THEN <<>> ELSE Spaces(gaps[i] + (IF i = 1 THEN 0 ELSE 1)) \o Written(ws[i], qs[i]) \o Join(ws, qs, gaps, i + 1)

\* ---- environment: maps as sequences of <<key, value>>
SessionKeys == { B("TRAX_IN"), B("TRAX_OUT"), B("TRAX_SOCKET") }
Added(mode) == CASE mode = 1 -> { B("TRAX_IN"), B("TRAX_OUT") } [] mode = 2 -> { B("TRAX_SOCKET") } [] OTHER -> {}
Outer(m) == SelectSeq(m, LAMBDA e : e[1] \notin SessionKeys)
Environment(caller, added) == MapAll(Outer(caller), added)
=============================================================================
