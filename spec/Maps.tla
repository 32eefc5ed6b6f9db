-------------------------------- MODULE Maps -------------------------------
(* Property collections: independent maps from keys to values.  m[i] is the collection in slot i, or absent.
   Keys and values are numbers here; the replay gives them byte strings (also such that share a hash value).
   MapOps gives the
   meaning of concrete sequences of calls and of values read as numbers.                                                    *)
EXTENDS MapOps, Json
CONSTANTS NS, NK, NV, MaxOps

Keys == 1..NK
Empty == [k \in Keys |-> 0]                      \* 0: the key is absent
Join(a, b, over) == [k \in Keys |-> IF b[k] = 0 THEN a[k] ELSE IF a[k] = 0 \/ over THEN b[k] ELSE a[k]]

VARIABLES m, hist
Init == m = [i \in 1..NS |-> [ok |-> FALSE, e |-> Empty]] /\ hist = <<>>
Put(i, e, op) == m' = [m EXCEPT ![i] = [ok |-> TRUE, e |-> e]] /\ hist' = Append(hist, op)
Op(f, i, j, k, v) == [f |-> f, i |-> i, j |-> j, k |-> k, v |-> v]
New(i) == Put(i, Empty, Op("new", i, 0, 0, 0))
Set(i, k, v) == m[i].ok /\ Put(i, [m[i].e EXCEPT ![k] = v], Op("set", i, 0, k, v))
CopyTo(i, j) == m[j].ok /\ Put(i, m[j].e, Op("copy", i, j, 0, 0))
Add(i, j, o) == m[i].ok /\ m[j].ok /\ Put(i, Join(m[i].e, m[j].e, o), Op("append", i, j, IF o THEN 1 ELSE 0, 0))     \* j into i
Clear(i) == m[i].ok /\ Put(i, Empty, Op("clear", i, 0, 0, 0))
Release(i) == m[i].ok /\ m' = [m EXCEPT ![i] = [ok |-> FALSE, e |-> Empty]] /\ hist' = Append(hist, Op("rel", i, 0, 0, 0))
Next == /\ Len(hist) < MaxOps
        /\ \E i \in 1..NS : \/ New(i) \/ Clear(i) \/ Release(i)
                            \/ \E k \in Keys, v \in 1..NV : Set(i, k, v)
                            \/ \E j \in 1..NS : CopyTo(i, j) \/ \E o \in BOOLEAN : Add(i, j, o)
\* every transition of the reachable graph is printed with the history that leads to it
View == m
Emit == PrintT(<<"H", ToJson([h |-> hist', m |-> m'])>>)
\* a change of one collection leaves the others alone; appending keeps what is there unless overwriting was asked for
Local == [][\A i \in 1..NS : m'[i] = m[i] \/ hist'[Len(hist')].i = i]_<<m, hist>>
Keeps == [][LET o == hist'[Len(hist')] IN o.f = "append" => \A k \in Keys : /\ (m[o.i].e[k] # 0 => m'[o.i].e[k] # 0)
                                                                          /\ (m[o.i].e[k] # 0 /\ o.k = 0 => m'[o.i].e[k] = m[o.i].e[k])
                                                                          /\ (m[o.j].e[k] # 0 => m'[o.i].e[k] # 0)]_<<m, hist>>

---------------------------------------------------------------------------
\* texts built of pieces
Pieces == << B("0"), B("7"), B("42"), B("-"), B("."), B("e"), B("x"), B("k"), B(" "), <<9>>, <<200>>, B("nan"), B("f"), B("00") >>
TInit == m = <<>> /\ hist = <<>>
TNext == Len(hist) < MaxOps /\ hist' = Append(hist, 0) /\ \E p \in DOMAIN Pieces : m' = m \o Pieces[p]
TEmit == PrintT(<<"T", ToJson([s |-> m, n |-> Number(m)])>>)
=============================================================================
