------------------------------- MODULE MapOps ------------------------------
(* What recorded sequences of calls on property collections mean, and what a value means read as a number. *)
EXTENDS Bytes

\* concrete sequences: ops are [f, i, j, k, v, o] with byte strings k and v; the result is the state after every call
Nothing == [ok |-> FALSE, m |-> <<>>]
Step(st, o) ==
    LET has(i) == st[i].ok
        put(i, x) == [st EXCEPT ![i] = [ok |-> TRUE, m |-> x]]
    IN CASE o.f = "new" -> put(o.i, <<>>)
         [] o.f = "set" -> put(o.i, MapPut(st[o.i].m, o.k, o.v))
         [] o.f = "copy" -> put(o.i, st[o.j].m)
         [] o.f = "append" -> put(o.i, IF o.o = 1 THEN MapAll(st[o.i].m, st[o.j].m) ELSE MapAll(st[o.i].m, SelectSeq(st[o.j].m, LAMBDA e : ~MapHas(st[o.i].m, e[1]))))
         [] o.f = "clear" -> put(o.i, <<>>)
         [] o.f = "rel" -> [st EXCEPT ![o.i] = Nothing]
Run(ops, n) == FoldLeft(LAMBDA a, o : Append(a, Step(IF a = <<>> THEN [i \in 1..n |-> Nothing] ELSE a[Len(a)], o)), <<>>, ops)

\* values read as numbers: "int"/"dec" give the number's text, "junk" is no number (the default applies), "unsure" is not settled
IsInt(t) == LET u == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t IN u # <<>> /\ Len(u) <= 9 /\ \A i \in DOMAIN u : IsDigit(u[i])
IsDec(t) == LET u == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t  p == SplitAt(u, 46)
            IN Len(p) = 2 /\ p[1] # <<>> /\ p[2] # <<>> /\ Len(u) <= 10 /\ \A i \in DOMAIN u : IsDigit(u[i]) \/ u[i] = 46
NumChars == ToSet(B("0123456789+-.eExXpPabcdfABCDFiInNtTyY()_ ")) \cup (9..13)
Junk(t) == \/ t = <<>>
           \/ \E i \in DOMAIN t : t[i] \notin NumChars
           \/ (IsDigit(t[1]) /\ Len(t) > 1 /\ t[2] \notin {120, 88} /\ \E i \in DOMAIN t : (IsUpper(t[i]) \/ IsLower(t[i])) /\ t[i] \notin {101, 69})
           \/ (IsDigit(t[1]) /\ t[Len(t)] \in {SP, 43, 45, 101} /\ (Len(t) > 1 => t[2] \notin {120, 88}))
           \/ (\A i \in DOMAIN t : t[i] \in {43, 45, 46, SP})
Number(t) == IF IsInt(t) THEN "int" ELSE IF IsDec(t) THEN "dec" ELSE IF Junk(t) THEN "junk" ELSE "unsure"
=============================================================================
