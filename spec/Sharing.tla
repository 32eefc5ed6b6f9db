------------------------------ MODULE Sharing ------------------------------
(* The C++ objects.  Regions, images and property sets ("objects") and lists of them ("lists") are handles on
   shared, counted resources with copy-on-write.  For their users they are values: av and al say what each
   object and each list is worth.  s and l say which resource a handle refers to, rv and lv what a resource
   holds.  TLC checks that the shared design implements the values (Refines) and that a resource exists
   exactly as long as it is referred to (Exact).  Every transition is replayed on the real classes.

   Values are numbers: 0 is the empty object, 1..NV are contents, 9 the initial element of an object list.  Handles: 0 no object, -1 an empty object,
   -2 moved from (whatever it holds, it can be assigned to and destroyed), r > 0 refers to resource r.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS NS, NL, Len_, NV, MaxOps,
          ElemRes,     \* the elements of a new list are objects of their own (object lists) or empty (image lists)
          MutBlank     \* changing an empty object gives it a content (properties, rectangles) or is not possible

Slots == 1..NS
Lists == 1..NL
Res == 1..(NS + (NL + 1) * Len_ + 1)
LRes == 1..(NL + 1)
VARIABLES s, l, rv, lv, av, al, hist
Absent == 0  Blank == -1  Gone == -2
Free == -1             \* content of a resource that does not exist

Init == /\ s = [i \in Slots |-> Absent] /\ l = [k \in Lists |-> Absent]
        /\ rv = [r \in Res |-> Free] /\ lv = [r \in LRes |-> <<>>]
        /\ av = [i \in Slots |-> Absent - 10] /\ al = [k \in Lists |-> <<>>] /\ hist = <<>>

\* who refers to a resource
Used(sx, lx, lvx) == {sx[i] : i \in Slots} \cup UNION {ToSet(lvx[lx[k]]) : k \in {k \in Lists : lx[k] > 0}}
Claims(r) == Cardinality({i \in Slots : s[i] = r}) + Cardinality({<<k, e>> \in Lists \X (1..Len_) : l[k] > 0 /\ lv[l[k]][e] = r})
LClaims(r) == Cardinality({k \in Lists : l[k] = r})
FreshR == CHOOSE r \in Res : rv[r] = Free /\ \A q \in Res : rv[q] = Free => r <= q
FreshL == CHOOSE r \in LRes : lv[r] = <<>> /\ \A q \in LRes : lv[q] = <<>> => r <= q
\* the next state: resources nobody refers to disappear, lists first
Settle(sx, lx, rvx, lvx) ==
    LET lv2 == [r \in LRes |-> IF \E k \in Lists : lx[k] = r THEN lvx[r] ELSE <<>>]
    IN /\ s' = sx /\ l' = lx /\ lv' = lv2
       /\ rv' = [r \in Res |-> IF r \in Used(sx, lx, lv2) THEN rvx[r] ELSE Free]
Op(f, i, j, k, v) == [f |-> f, i |-> i, j |-> j, k |-> k, v |-> v]
Log(o) == hist' = Append(hist, o)
Val(a, i, x) == av' = [a EXCEPT ![i] = x]
Unknown == -2     \* value of a moved-from object
None == -10
Usable(i) == s[i] = Blank \/ s[i] > 0

\* objects
New(i, v) == LET r == FreshR IN Settle([s EXCEPT ![i] = r], l, [rv EXCEPT ![r] = v], lv) /\ Val(av, i, v) /\ UNCHANGED al /\ Log(Op("new", i, 0, 0, v))
Default(i) == Settle([s EXCEPT ![i] = Blank], l, rv, lv) /\ Val(av, i, 0) /\ UNCHANGED al /\ Log(Op("def", i, 0, 0, 0))
CopyC(i, j) == i # j /\ Usable(j) /\ Settle([s EXCEPT ![i] = s[j]], l, rv, lv) /\ Val(av, i, av[j]) /\ UNCHANGED al /\ Log(Op("copy", i, j, 0, 0))
Assign(i, j) == s[i] # Absent /\ Usable(j) /\ Settle([s EXCEPT ![i] = s[j]], l, rv, lv) /\ Val(av, i, av[j]) /\ UNCHANGED al /\ Log(Op("asg", i, j, 0, 0))
MoveC(i, j) == i # j /\ Usable(j) /\ Settle([s EXCEPT ![i] = s[j], ![j] = Gone], l, rv, lv) /\ av' = [av EXCEPT ![i] = av[j], ![j] = Unknown] /\ UNCHANGED al /\ Log(Op("mvc", i, j, 0, 0))
MoveA(i, j) == i # j /\ s[i] # Absent /\ Usable(j) /\ Settle([s EXCEPT ![i] = s[j], ![j] = Gone], l, rv, lv) /\ av' = [av EXCEPT ![i] = av[j], ![j] = Unknown] /\ UNCHANGED al /\ Log(Op("mva", i, j, 0, 0))
Destroy(i) == s[i] # Absent /\ Settle([s EXCEPT ![i] = Absent], l, rv, lv) /\ Val(av, i, None) /\ UNCHANGED al /\ Log(Op("del", i, 0, 0, 0))
Change(i, v) == /\ s[i] > 0 \/ (s[i] = Blank /\ MutBlank)
                /\ IF s[i] = Blank \/ Claims(s[i]) > 1 THEN LET r == FreshR IN Settle([s EXCEPT ![i] = r], l, [rv EXCEPT ![r] = v], lv)
                   ELSE Settle(s, l, [rv EXCEPT ![s[i]] = v], lv)
                /\ Val(av, i, v) /\ UNCHANGED al /\ Log(Op("mut", i, 0, 0, v))
\* lists
FreshRs == SetToSeq({r \in Res : rv[r] = Free})      \* one for every element
LNew(k) == LET q == FreshL
               el == [e \in 1..Len_ |-> IF ElemRes THEN FreshRs[e] ELSE Blank]
           IN Settle(s, [l EXCEPT ![k] = q], [r \in Res |-> IF r \in ToSet(el) THEN 9 ELSE rv[r]], [lv EXCEPT ![q] = el]) /\ al' = [al EXCEPT ![k] = [e \in 1..Len_ |-> IF ElemRes THEN 9 ELSE 0]] /\ UNCHANGED av /\ Log(Op("lnew", k, 0, 0, 0))
LMay(k) == l[k] > 0
LCopy(k, j) == k # j /\ LMay(j) /\ Settle(s, [l EXCEPT ![k] = l[j]], rv, lv) /\ al' = [al EXCEPT ![k] = al[j]] /\ UNCHANGED av /\ Log(Op("lcopy", k, j, 0, 0))
LAssign(k, j) == l[k] # Absent /\ LMay(j) /\ Settle(s, [l EXCEPT ![k] = l[j]], rv, lv) /\ al' = [al EXCEPT ![k] = al[j]] /\ UNCHANGED av /\ Log(Op("lasg", k, j, 0, 0))
LMoveC(k, j) == k # j /\ LMay(j) /\ Settle(s, [l EXCEPT ![k] = l[j], ![j] = Gone], rv, lv) /\ al' = [al EXCEPT ![k] = al[j], ![j] = <<Unknown>>] /\ UNCHANGED av /\ Log(Op("lmvc", k, j, 0, 0))
LMoveA(k, j) == k # j /\ l[k] # Absent /\ LMay(j) /\ Settle(s, [l EXCEPT ![k] = l[j], ![j] = Gone], rv, lv) /\ al' = [al EXCEPT ![k] = al[j], ![j] = <<Unknown>>] /\ UNCHANGED av /\ Log(Op("lmva", k, j, 0, 0))
LDestroy(k) == l[k] # Absent /\ Settle(s, [l EXCEPT ![k] = Absent], rv, lv) /\ al' = [al EXCEPT ![k] = <<>>] /\ UNCHANGED av /\ Log(Op("ldel", k, 0, 0, 0))
LSet(k, e, i) == /\ LMay(k) /\ (s[i] > 0 \/ (s[i] = Blank /\ ~ElemRes))
                 /\ IF e \notin 1..Len_ THEN UNCHANGED <<s, l, rv, lv, al>>      \* outside: rejected
                    ELSE /\ IF LClaims(l[k]) > 1 THEN LET q == FreshL IN Settle(s, [l EXCEPT ![k] = q], rv, [lv EXCEPT ![q] = [lv[l[k]] EXCEPT ![e] = s[i]]])
                            ELSE Settle(s, l, rv, [lv EXCEPT ![l[k]][e] = s[i]])
                         /\ al' = [al EXCEPT ![k][e] = av[i]]
                 /\ UNCHANGED av /\ Log(Op("lset", k, e, i, 0))
LGet(i, k, e) == LMay(k) /\ s[i] # Absent /\ e \in 1..Len_ /\ Settle([s EXCEPT ![i] = lv[l[k]][e]], l, rv, lv) /\ Val(av, i, al[k][e]) /\ UNCHANGED al /\ Log(Op("lget", i, k, e, 0))

ObjOps == \E i \in Slots : \/ Default(i) \/ Destroy(i)
                           \/ \E v \in 1..NV : Change(i, v)
                           \/ New(i, 1)
                           \/ \E j \in Slots : CopyC(i, j) \/ Assign(i, j) \/ MoveC(i, j) \/ MoveA(i, j)
ListOps == \E k \in Lists : \/ LNew(k) \/ LDestroy(k)
                            \/ \E j \in Lists : LCopy(k, j) \/ LAssign(k, j) \/ LMoveC(k, j) \/ LMoveA(k, j)
                            \/ \E i \in Slots : (\E e \in 0..(Len_ + 1) : LSet(k, e, i)) \/ (\E e \in 1..Len_ : LGet(i, k, e))
Next == Len(hist) < MaxOps /\ (ObjOps \/ ListOps)
\* one randomly chosen kind of operation at a time (simulation evaluates every enabled successor)
RandomNext == /\ Len(hist) < MaxOps
              /\ LET i == RandomElement(Slots)  j == RandomElement(Slots)  c == RandomElement(1..100)
                 IN IF NL = 0 \/ c <= 45
                    THEN LET d == RandomElement(1..12) IN
                         IF d = 1 /\ av[i] # None THEN Destroy(i) ELSE IF d <= 2 THEN Default(i) ELSE IF d <= 4 /\ s[i] # Absent /\ Usable(j) THEN Assign(i, j)
                         ELSE IF d <= 6 /\ i # j /\ Usable(j) THEN CopyC(i, j) ELSE IF d = 7 /\ i # j /\ Usable(j) THEN MoveC(i, j) ELSE IF d = 8 /\ i # j /\ Usable(j) /\ s[i] # Absent THEN MoveA(i, j)
                         ELSE IF d <= 11 /\ (s[i] > 0 \/ (s[i] = Blank /\ MutBlank)) THEN \E v \in {RandomElement(1..NV)} : Change(i, v) ELSE New(i, 1)
                    ELSE LET k == RandomElement(Lists)  m == RandomElement(Lists)  e == RandomElement(0..(Len_ + 1))  d == RandomElement(1..12) IN
                         IF d = 1 /\ l[k] # Absent THEN LDestroy(k) ELSE IF d = 2 /\ k # m /\ LMay(m) THEN LCopy(k, m) ELSE IF d <= 4 /\ l[k] # Absent /\ LMay(m) THEN LAssign(k, m)
                         ELSE IF d = 5 /\ k # m /\ LMay(m) THEN LMoveC(k, m) ELSE IF d = 6 /\ k # m /\ LMay(m) /\ l[k] # Absent THEN LMoveA(k, m)
                         ELSE IF d <= 9 /\ LMay(k) /\ (s[i] > 0 \/ (s[i] = Blank /\ ~ElemRes)) THEN LSet(k, e, i) ELSE IF d <= 11 /\ LMay(k) /\ s[i] # Absent /\ e \in 1..Len_ THEN LGet(i, k, e)
                         ELSE LNew(k)
View == <<s, l, rv, lv>>
Emit == PrintT(<<"H", ToJson([h |-> hist', v |-> av', l |-> al'])>>)
\* one long random behaviour per walk
LastE == Len(hist) = MaxOps => PrintT(<<"H", ToJson([h |-> hist, v |-> av, l |-> al])>>)

Refines == /\ \A i \in Slots : av[i] = (CASE s[i] = Absent -> None [] s[i] = Gone -> Unknown [] s[i] = Blank -> 0 [] OTHER -> rv[s[i]])
           /\ \A k \in Lists : al[k] = (CASE l[k] = Absent -> <<>> [] l[k] = Gone -> <<Unknown>> [] OTHER -> [e \in 1..Len_ |-> IF lv[l[k]][e] > 0 THEN rv[lv[l[k]][e]] ELSE 0])
Exact == /\ \A r \in Res : (rv[r] # Free) <=> (Claims(r) > 0)
         /\ \A q \in LRes : (lv[q] # <<>>) <=> (LClaims(q) > 0)
\* no operation changes what another object is worth
Local == [][LET o == hist'[Len(hist')] IN
              /\ \A i \in Slots : av'[i] = av[i] \/ o.i = i \/ (o.f \in {"mvc", "mva"} /\ o.j = i)
              /\ \A k \in Lists : al'[k] = al[k] \/ (o.i = k /\ o.f \notin {"new", "def", "mut"}) \/ (o.f \in {"lmvc", "lmva"} /\ o.j = k)]_<<s, l, rv, lv, av, al, hist>>
=============================================================================
