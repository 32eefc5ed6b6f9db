------------------------------- MODULE Lists -------------------------------
(* Object lists and image lists of the C interface.  An object list is a sequence of <<region, properties>>;
   the list owns copies.  An image list keeps, per channel, the image that was given.  Regions and images of
   the caller live in slots of their own and are changed and released independently.
   Values are numbers: region 0 is the initial value of a list element.                                *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANTS NL,       \* object lists
          NR,       \* region slots
          MaxLen, NV, MaxOps

VARIABLES ol, r, hist
None == [ok |-> FALSE, e |-> <<>>]
Op(f, i, j, k, v) == [f |-> f, i |-> i, j |-> j, k |-> k, v |-> v]
Init == ol = [i \in 1..NL |-> None] /\ r = [i \in 1..NR |-> 0] /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Elem(v, p) == <<v, p>>
Create(i, n) == ol' = [ol EXCEPT ![i] = [ok |-> TRUE, e |-> [x \in 1..n |-> Elem(0, 0)]]] /\ Log(Op("new", i, n, 0, 0)) /\ UNCHANGED r
Free(i) == ol[i].ok /\ ol' = [ol EXCEPT ![i] = None] /\ Log(Op("rel", i, 0, 0, 0)) /\ UNCHANGED r
In(i, x) == x \in DOMAIN ol[i].e
\* indices are counted from 1 here; 0 and the ones behind the end are outside
SetFrom(i, x, s) == ol[i].ok /\ r[s] # 0 /\ ol' = (IF In(i, x) THEN [ol EXCEPT ![i].e[x][1] = r[s]] ELSE ol) /\ Log(Op("set", i, x, s, 0)) /\ UNCHANGED r
SetOwn(i, x, j, y) == ol[i].ok /\ ol[j].ok /\ In(i, x) /\ In(j, y) /\ ol' = [ol EXCEPT ![i].e[x][1] = ol[j].e[y][1]] /\ Log(Op("setown", i, x, j, y)) /\ UNCHANGED r
Prop(i, x, v) == ol[i].ok /\ ol' = (IF In(i, x) THEN [ol EXCEPT ![i].e[x][2] = v] ELSE ol) /\ Log(Op("prop", i, x, 0, v)) /\ UNCHANGED r
Add(i, j) == ol[i].ok /\ ol[j].ok /\ Len(ol[i].e) + Len(ol[j].e) <= MaxLen /\ ol' = [ol EXCEPT ![i].e = @ \o ol[j].e] /\ Log(Op("append", i, j, 0, 0)) /\ UNCHANGED r
Make(s, v) == r' = [r EXCEPT ![s] = v] /\ Log(Op("rnew", s, 0, 0, v)) /\ UNCHANGED ol
Change(s, v) == r[s] # 0 /\ r[s] # v /\ r' = [r EXCEPT ![s] = v] /\ Log(Op("rmut", s, 0, 0, v)) /\ UNCHANGED ol
Next == /\ Len(hist) < MaxOps
        /\ \/ \E i \in 1..NL : \/ Free(i)
                               \/ \E n \in 0..(MaxLen - 1) : Create(i, n)
                               \/ \E x \in 0..(MaxLen + 1) : x <= Len(ol[i].e) + 1 /\ ((\E s \in 1..NR : SetFrom(i, x, s)) \/ (\E v \in 1..NV : Prop(i, x, v)))
                               \/ \E j \in 1..NL : Add(i, j) \/ \E x \in 1..MaxLen, y \in 1..MaxLen : SetOwn(i, x, j, y)
           \/ \E s \in 1..NR, v \in 1..NV : Make(s, v) \/ Change(s, v)
\* one random call after another, for lists of many elements
Some(i) == RandomElement(0..(Len(ol[i].e) + 1))
Walk == /\ Len(hist) < MaxOps
        /\ \E i \in {RandomElement(1..NL)}, j \in {RandomElement(1..NL)}, s \in {RandomElement(1..NR)}, v \in {RandomElement(1..NV)}, d \in {RandomElement(1..20)} :
             \E x \in {Some(i)}, y \in {Some(j)}, n \in {RandomElement(0..(MaxLen \div 3))} :
               IF ~ol[i].ok \/ d = 1 THEN Create(i, n)
               ELSE IF d = 2 THEN Free(i)
               ELSE IF r[s] = 0 \/ d = 3 THEN Make(s, v)
               ELSE IF d = 4 /\ r[s] # v THEN Change(s, v)
               ELSE IF d \in 5..9 /\ ol[j].ok /\ Len(ol[i].e) + Len(ol[j].e) <= MaxLen THEN Add(i, j)
               ELSE IF d \in 10..12 /\ ol[j].ok /\ In(i, x) /\ In(j, y) THEN SetOwn(i, x, j, y)
               ELSE IF d \in 13..16 THEN SetFrom(i, x, s)
               ELSE Prop(i, x, v)
View == <<ol, r>>
Emit == PrintT(<<"H", ToJson([h |-> hist', ol |-> ol', r |-> r'])>>)
\* only the list that is named changes; a caller's region is never changed by a list and the other way round
Local == [][LET o == hist'[Len(hist')] IN /\ \A i \in 1..NL : ol'[i] = ol[i] \/ (o.i = i /\ o.f \notin {"rnew", "rmut"})
                                          /\ (r' # r => o.f \in {"rnew", "rmut"})]_<<ol, r, hist>>
Typed == \A i \in 1..NL : Len(ol[i].e) <= MaxLen

---------------------------------------------------------------------------
\* image lists: ol[i].e is the sequence of the three channels (0: none); images are values of the caller
Channels == << 1, 2, 4 >>
ChIdx(c) == IF c = 1 THEN 1 ELSE IF c = 2 THEN 2 ELSE IF c = 4 THEN 3 ELSE 0
Others == {0, 3, 5, 7, 8, 16, 4096}
ICreate(i) == ol' = [ol EXCEPT ![i] = [ok |-> TRUE, e |-> <<0, 0, 0>>]] /\ Log(Op("lnew", i, 0, 0, 0)) /\ UNCHANGED r
ISet(i, c, v) == ol[i].ok /\ ol' = (IF ChIdx(c) > 0 THEN [ol EXCEPT ![i].e[ChIdx(c)] = v] ELSE ol) /\ Log(Op("lset", i, c, 0, v)) /\ UNCHANGED r
IFree(i) == ol[i].ok /\ ol' = [ol EXCEPT ![i] = None] /\ Log(Op("lrel", i, 0, 0, 0)) /\ UNCHANGED r
INext == Len(hist) < MaxOps /\ \E i \in 1..NL : ICreate(i) \/ IFree(i) \/ \E c \in {1, 2, 4} \cup Others, v \in 0..NV : ISet(i, c, v)
=============================================================================
