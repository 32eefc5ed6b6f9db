------------------------------ MODULE Session ------------------------------
(* A tracking session: a client handle, a server handle, the two message channels between them, and the
   applications using them.  Mode "closed": both ends are this library.  Mode "server" / "client": that end is
   the library, the other end is an arbitrary peer that may put any message of the injection alphabet into
   the channel.  Mode "call": as "client", through a binding whose requests return with their answer.  In every mode an application may make calls that must be refused.

   hist records the calls made, the answers the specification requires and the messages sent; it is what is
   replayed on the real code.  With Fresh = FALSE payloads are constants and hist is hidden by the view, so
   that the reachable states of the protocol itself are explored exhaustively.                            *)
EXTENDS Proto, TLC, Json

CONSTANTS Mode, Ver, NCh, Multi, MaxOps, MaxObj, MaxChan, MaxPipe, Fresh,
          Ahead,    \* an arbitrary peer sends only while fewer messages than this wait in the channel
          Peer,     \* "any": arbitrary messages and complete requests or answers; "good": the latter only
          Bad,      \* whether refused calls are tried
          Ends,     \* whether terminate / end of stream happen
          Noise     \* whether foreign lines appear

Cfg == [ver |-> Ver, nch |-> NCh, multi |-> Multi, fmts |-> {"path"}]
Sot == Ver < 4

VARIABLES cl, sv,         \* handles
          c2s, s2c,       \* messages in flight
          ceof, seof,     \* input of the client / server closed
          owed,           \* requests sent by the client and not yet answered to it
          due,            \* requests the server has received and not yet answered
          sent, recv,     \* model-only history: requests and replies put in, taken out
          hist
vars == <<cl, sv, c2s, s2c, ceof, seof, owed, due, sent, recv, hist>>
NoHist == <<cl, sv, c2s, s2c, ceof, seof, owed, due>>

Step == Len(hist) + 1
Id(p, k) == IF Fresh THEN p \o ToString(Step) \o "_" \o ToString(k) ELSE p \o ToString(k)
Imgs == [i \in 1..NCh |-> Id("i", i)]
Objs(n) == [i \in 1..n |-> <<Id("r", i), IF i % 2 = 1 THEN Id("q", i) ELSE "none">>]
ObjsPlain(n) == [i \in 1..n |-> <<Id("r", i), "none">>]
PropSet == {"none", Id("p", 0)}
Missing == [Imgs EXCEPT ![NCh] = None]

Do(e) == hist' = Append(hist, e)
E3(op, side, call, exp, msgs) == [op |-> op, side |-> side, call |-> call, exp |-> exp, sent |-> msgs]

Init == /\ cl = [alive |-> TRUE, n |-> 0] /\ sv = [alive |-> TRUE, n |-> 0]
        /\ c2s = <<>> /\ s2c = <<>> /\ ceof = FALSE /\ seof = FALSE
        /\ owed = 0 /\ due = 0 /\ sent = <<>> /\ recv = <<>> /\ hist = <<>>

Room(ch) == Mode # "closed" \/ Len(ch) <= MaxChan     \* nobody takes out what is sent to an arbitrary peer
NoArgs == [imgs |-> <<>>, objs |-> <<>>, props |-> "none"]
Note(x) == IF Fresh THEN Append(sent, x) ELSE sent
Got(x) == IF Fresh THEN Append(recv, x) ELSE recv

---------------------------------------------------------------------------
\* client calls
ClientSend(op, imgs, objs, props) ==
    LET r == IF op = "cinit" THEN CliInit(Cfg, cl, imgs, objs, props) ELSE CliFrame(Cfg, cl, imgs, objs, props)
    IN /\ Room(c2s)
       /\ ((Mode = "closed" \/ Peer = "good") /\ r[1]) => (owed = 0 \/ (op = "cframe" /\ objs = <<>> /\ owed < MaxPipe))
       /\ (r[1] \/ Bad)
       /\ cl' = r[3] /\ c2s' = (IF seof THEN c2s ELSE c2s \o r[2])
       /\ owed' = (IF r[1] THEN owed + 1 ELSE owed)
       /\ sent' = (IF r[1] THEN Note(<<"req", imgs, objs, props>>) ELSE sent)
       /\ Do(E3(op, "c", [imgs |-> imgs, objs |-> objs, props |-> props], [ok |-> r[1], why |-> r[4]], r[2]))
       /\ UNCHANGED <<sv, s2c, ceof, seof, due, recv>>
\* sessions with many objects are walked at random
Nums(top, usual) == IF MaxObj <= 8 THEN 0..top ELSE {RandomElement(0..top), usual}
CInit == \E n \in Nums(MaxObj, MaxObj), p \in PropSet : ClientSend("cinit", Imgs, Objs(n), p)
CInitBad == Bad /\ (ClientSend("cinit", Missing, Objs(1), "none") \/ ClientSend("cinit", Imgs, << <<"special", "none">> >>, "none"))
CFrame == \E n \in Nums(IF Multi \/ Bad THEN MaxObj - 1 ELSE 0, 0), p \in PropSet : ClientSend("cframe", Imgs, Objs(n), p)
CFrameBad == Bad /\ (ClientSend("cframe", Missing, <<>>, "none") \/ ClientSend("cframe", Imgs, << <<"special", "none">> >>, "none")
                     \/ (Multi /\ ClientSend("cframe", Missing, Objs(1), "none")))

\* a binding that sends a request and waits for its answer in one call
ClientCall(op, imgs, objs, props) ==
    LET r == IF op = "cinit" THEN CliInit(Cfg, cl, imgs, objs, props) ELSE CliFrame(Cfg, cl, imgs, objs, props)
        a == CliWait(r[3], s2c)
        x == IF r[1] THEN (IF a[1].res = "blocked" THEN Err(Len(s2c)) ELSE a[1]) ELSE Err(0)
    IN /\ (r[1] \/ Bad)
       /\ (r[1] => a[1].res # "blocked" \/ ceof)
       /\ cl' = (IF r[1] THEN a[2] ELSE cl)
       /\ s2c' = SubSeq(s2c, x.used + 1, Len(s2c))
       /\ Do(E3(op, "c", [imgs |-> imgs, objs |-> objs, props |-> props], [ok |-> r[1], why |-> r[4], res |-> x.res, objects |-> x.objects, props |-> x.props], r[2]))
       /\ UNCHANGED <<sv, c2s, ceof, seof, owed, due, sent, recv>>
CCallInit == \E n \in 0..MaxObj, p \in PropSet : ClientCall("cinit", Imgs, Objs(n), p)
CCallFrame == \E n \in 0..(MaxObj - 1), p \in PropSet : ClientCall("cframe", Imgs, Objs(n), p)
CCallBad == Bad /\ (ClientCall("cinit", Missing, Objs(1), "none") \/ ClientCall("cframe", Missing, <<>>, "none") \/ ClientCall("cinit", Imgs, << <<"special", "none">> >>, "none"))

Closing(a, eof, len) == IF a[1].res = "blocked" THEN Err(len) ELSE a[1]
CWait == LET a == CliWait(cl, s2c) x == Closing(a, ceof, Len(s2c)) IN
         /\ (a[1].res # "blocked" \/ ceof)
         /\ (x.used = 0 => Bad \/ ceof)
         /\ cl' = a[2] /\ s2c' = SubSeq(s2c, x.used + 1, Len(s2c))
         /\ owed' = (IF x.res = "state" /\ owed > 0 THEN owed - 1 ELSE owed)
         /\ recv' = (IF x.res = "state" THEN Got(<<"rep", x.objects>>) ELSE recv)
         /\ Do(E3("cwait", "c", NoArgs, x, <<>>))
         /\ UNCHANGED <<sv, c2s, ceof, seof, due, sent>>

\* server calls
SWait == LET a == IF Sot THEN SotWait(Cfg, sv, c2s) ELSE MotWait(Cfg, sv, c2s)
             x == Closing(a, seof, Len(c2s)) IN
         /\ (a[1].res # "blocked" \/ seof)
         /\ (x.used = 0 => Bad \/ seof)
         /\ sv' = a[2] /\ c2s' = SubSeq(c2s, x.used + 1, Len(c2s))
         /\ due' = (IF x.res \in {"initialize", "frame"} THEN due + 1 ELSE due)
         /\ recv' = (IF x.res \in {"initialize", "frame"} THEN Got(<<"req", x.images, x.objects, x.props>>) ELSE recv)
         /\ Do(E3("swait", "s", NoArgs, x, <<>>))
         /\ UNCHANGED <<cl, s2c, ceof, seof, owed, sent>>
\* the other interface on a version that does not allow it
SWaitWrong == /\ Bad /\ ~Sot
              /\ Do(E3("swaits", "s", NoArgs, Err(0), <<>>))
              /\ UNCHANGED <<cl, sv, c2s, s2c, ceof, seof, owed, due, sent, recv>>
ServerSend(objs) ==
    LET r == IF Sot THEN SotReply(Cfg, sv, objs[1][1], objs[1][2]) ELSE MotReply(Cfg, sv, objs)
    IN /\ Room(s2c) /\ (r[1] \/ Bad)
       /\ r[1] => due > 0
       /\ s2c' = (IF ceof THEN s2c ELSE s2c \o r[2]) /\ sv' = r[3]
       /\ due' = (IF r[1] THEN due - 1 ELSE due)
       /\ sent' = (IF r[1] THEN Note(<<"rep", objs>>) ELSE sent)
       /\ Do(E3("sreply", "s", [imgs |-> <<>>, objs |-> objs, props |-> "none"], [ok |-> r[1], why |-> r[4]], r[2]))
       /\ UNCHANGED <<cl, c2s, ceof, seof, owed, recv>>
SReply == \E n \in (IF Sot THEN {1} ELSE Nums(MaxObj + 1, sv.n)) : ServerSend(Objs(n)) \/ (n = 1 /\ ServerSend(ObjsPlain(n)))
\* the single-object reply on a version that does not allow it
SReplyWrong == /\ Bad /\ ~Sot
               /\ Do(E3("sreplys", "s", [imgs |-> <<>>, objs |-> Objs(1), props |-> "none"], [ok |-> FALSE, why |-> IF sv.alive THEN "mode" ELSE "alive"], <<>>))
               /\ UNCHANGED <<cl, sv, c2s, s2c, ceof, seof, owed, due, sent, recv>>

\* ending
CTerm == \E w \in {"none", Id("why", 0)} : LET r == Terminate(cl, w) IN
         /\ Ends /\ (cl.alive \/ Bad)
         /\ cl' = r[3] /\ c2s' = (IF seof THEN c2s ELSE c2s \o r[2])
         /\ Do(E3("term", "c", [imgs |-> <<>>, objs |-> <<>>, props |-> w], [ok |-> TRUE, why |-> ""], r[2]))
         /\ UNCHANGED <<sv, s2c, ceof, seof, owed, due, sent, recv>>
STerm == \E w \in {"none", Id("why", 0)} : LET r == Terminate(sv, w) IN
         /\ Ends /\ (sv.alive \/ Bad)
         /\ sv' = r[3] /\ s2c' = (IF ceof THEN s2c ELSE s2c \o r[2])
         /\ Do(E3("term", "s", [imgs |-> <<>>, objs |-> <<>>, props |-> w], [ok |-> TRUE, why |-> ""], r[2]))
         /\ UNCHANGED <<cl, c2s, ceof, seof, owed, due, sent, recv>>
\* the stream towards one end is closed: what was sent before is still delivered, nothing after it
CLost == /\ Ends /\ ~ceof /\ ceof' = TRUE /\ Do(E3("eof", "c", NoArgs, NoArgs, <<>>)) /\ UNCHANGED <<cl, sv, c2s, s2c, seof, owed, due, sent, recv>>
SLost == /\ Ends /\ ~seof /\ seof' = TRUE /\ Do(E3("eof", "s", NoArgs, NoArgs, <<>>)) /\ UNCHANGED <<cl, sv, c2s, s2c, ceof, owed, due, sent, recv>>
\* plain program output on the channel: no effect at all
ToServerNoise == Noise /\ ~seof /\ Do(E3("noise", "s", NoArgs, NoArgs, <<>>)) /\ UNCHANGED <<cl, sv, c2s, s2c, ceof, seof, owed, due, sent, recv>>
ToClientNoise == Noise /\ ~ceof /\ Do(E3("noise", "c", NoArgs, NoArgs, <<>>)) /\ UNCHANGED <<cl, sv, c2s, s2c, ceof, seof, owed, due, sent, recv>>

---------------------------------------------------------------------------
\* arbitrary peers
Img(k) == ImgArg(Id("i", k))
Reg(k) == RegArg(Id("r", k))
BadImg == [k |-> "img", f |-> "memory", v |-> "badimg", ok |-> FALSE]
UrlImg == [k |-> "img", f |-> "url", v |-> "url", ok |-> TRUE]
BadReg == [k |-> "reg", f |-> "none", v |-> "badreg", ok |-> FALSE]
ImgN(n) == [k \in 1..n |-> Img(k)]
ToServer == {Msg("initialize", a, p) : a \in {ImgN(NCh) \o <<Reg(1)>>, <<Reg(1)>>}, p \in PropSet}
     \cup {Msg("initialize", a, "none") : a \in {<<>>, ImgN(NCh), ImgN(NCh) \o <<BadReg>>, <<BadReg>>, ImgN(NCh + 1) \o <<Reg(1)>>, <<Reg(1), Reg(2)>>,
                                               [ImgN(NCh) EXCEPT ![NCh] = BadImg] \o <<Reg(1)>>, [ImgN(NCh) EXCEPT ![1] = UrlImg] \o <<Reg(1)>>}}
     \cup {Msg("frame", ImgN(NCh), p) : p \in PropSet}
     \cup {Msg("frame", a, "none") : a \in {<<>>, ImgN(NCh + 1), ImgN(NCh - 1), [ImgN(NCh) EXCEPT ![NCh] = BadImg], [ImgN(NCh) EXCEPT ![NCh] = UrlImg]}}
     \cup {Msg("quit", <<>>, p) : p \in PropSet} \cup {Msg("quit", <<Reg(1)>>, "none"), Msg("state", <<Reg(1)>>, "none"), Msg("hello", <<>>, "none")}
\* a one-element list may stand for a region or an image; only unambiguous messages are injected
Plain(m) == ~(m.type = "initialize" /\ Len(m.args) = 1 /\ m.args[1].k = "img" /\ ~Sot) /\ ~(m.type = "initialize" /\ Sot /\ Len(m.args) = NCh + 1 /\ m.args[NCh + 1].k = "img")
         /\ ~(m.type \in {"initialize", "frame"} /\ \E i \in DOMAIN m.args : m.args[i].k = "reg" /\ Sot /\ i <= NCh /\ Len(m.args) = NCh + 1)
ToClient == {Msg("state", <<Reg(1)>>, p) : p \in PropSet}
     \cup {Msg("state", a, "none") : a \in {<<>>, <<BadReg>>, <<Reg(1), Reg(2)>>}}
     \cup {Msg("quit", <<>>, p) : p \in PropSet}
     \cup {Msg("quit", <<Reg(1)>>, "none"), Msg("initialize", <<Reg(1)>>, "none"), Msg("initialize", <<>>, "none"), Msg("frame", <<Img(1)>>, "none"), Msg("hello", <<>>, "none"), Msg("state", <<Reg(1)>>, "none")}
FromPeerS(ms) == \E m \in {x \in ms : Plain(x)} : /\ Len(c2s) < Ahead /\ ~seof /\ c2s' = Append(c2s, m)
                    /\ Do(E3("inject", "s", NoArgs, NoArgs, <<m>>)) /\ UNCHANGED <<cl, sv, s2c, ceof, seof, owed, due, sent, recv>>
FromPeerC(ms) == \E m \in ms : /\ Len(s2c) < Ahead /\ ~ceof /\ s2c' = Append(s2c, m)
                    /\ Do(E3("inject", "c", NoArgs, NoArgs, <<m>>)) /\ UNCHANGED <<cl, sv, c2s, ceof, seof, owed, due, sent, recv>>
\* a whole request, a whole answer
Asking(k, reset, p) == IF Sot THEN <<Msg("frame", ImgN(NCh), p)>>
                       ELSE (IF reset THEN <<Msg("initialize", <<>>, "none")>> ELSE <<>>) \o ObjMsgs(Objs(k)) \o <<Msg("frame", ImgN(NCh), p)>>
Starting(p) == <<Msg("initialize", ImgN(NCh) \o <<Reg(1)>>, p)>>
Put(q, side) == /\ Do(E3("inject", side, NoArgs, NoArgs, q))
                /\ IF side = "s" THEN c2s' = c2s \o q /\ s2c' = s2c ELSE s2c' = s2c \o q /\ c2s' = c2s
                /\ UNCHANGED <<cl, sv, ceof, seof, owed, due, sent, recv>>
Request == /\ Len(c2s) < Ahead /\ ~seof
           /\ \E p \in PropSet : IF Sot THEN Put(Starting(p), "s") \/ Put(Asking(0, FALSE, p), "s")
                                ELSE \E k \in 0..MaxObj, reset \in {TRUE, FALSE} : (k = 0 => ~reset) /\ Put(Asking(k, reset, p), "s")
Answer == /\ Len(s2c) < Ahead /\ ~ceof /\ (Peer = "good" => Mode = "call" \/ owed > 0)
          /\ \E p \in PropSet, k \in (IF Mode = "call" THEN 1..MaxObj ELSE {cl.n}) : k > 0 /\ Put([i \in 1..k |-> Msg("state", <<Reg(i)>>, IF i % 2 = 1 THEN p ELSE "none")], "c")
PeerToServer == Request \/ (Peer = "any" /\ FromPeerS(ToServer))
PeerToClient == Answer \/ (Peer = "any" /\ FromPeerC(ToClient))

CallSide == CCallInit \/ CCallFrame \/ CCallBad \/ CTerm \/ CLost \/ ToClientNoise
ClientSide == CInit \/ CInitBad \/ CFrame \/ CFrameBad \/ CWait \/ CTerm \/ CLost \/ ToClientNoise
ServerSide == SWait \/ SWaitWrong \/ SReply \/ SReplyWrong \/ STerm \/ SLost \/ ToServerNoise
Next == /\ Len(hist) < MaxOps
        /\ CASE Mode = "closed" -> ClientSide \/ ServerSide
             [] Mode = "server" -> ServerSide \/ PeerToServer
             [] Mode = "client" -> ClientSide \/ PeerToClient
             [] Mode = "call" -> CallSide \/ PeerToClient
Spec == Init /\ [][Next]_vars

\* random long behaviours: most of the time everybody behaves, so that sessions become long
Babble == Noise /\ RandomElement(1..4) = 1
Usual == /\ Len(hist) < MaxOps
         /\ CASE Mode = "closed" -> CInit \/ CFrame \/ CWait \/ SWait \/ SReply \/ (Babble /\ (ToClientNoise \/ ToServerNoise))
              [] Mode = "server" -> Request \/ SWait \/ SReply \/ (Babble /\ ToServerNoise)
              [] Mode = "client" -> (IF owed = 0 THEN CInit \/ CFrame ELSE Answer \/ CWait) \/ (Babble /\ ToClientNoise)
              [] Mode = "call" -> Answer \/ CCallInit \/ CCallFrame \/ (Babble /\ ToClientNoise)
         /\ LET e == hist'[Len(hist')] IN e.op \in {"cinit", "cframe", "sreply"} => e.exp.ok
Long == IF RandomElement(1..(IF Bad THEN 3 ELSE 10)) = 1 \/ ~ENABLED Usual THEN Next ELSE Usual

---------------------------------------------------------------------------
(* What the session guarantees (closed mode). *)
Requests(s) == SelectSeq(s, LAMBDA x : x[1] = "req")
Replies(s) == SelectSeq(s, LAMBDA x : x[1] = "rep")
\* every request is received at most once, in order, with what was given to the call; same for replies
InOrder == Mode = "closed" =>
    /\ LET a == Requests(sent) b == Requests(recv) IN Len(b) <= Len(a) /\ \A i \in DOMAIN b :
          /\ b[i][2] = a[i][2] /\ b[i][4] = a[i][4] /\ (Sot => [k \in DOMAIN b[i][3] |-> b[i][3][k][1]] = [k \in DOMAIN a[i][3] |-> a[i][3][k][1]])
          /\ (~Sot => b[i][3] = a[i][3])
    /\ LET a == Replies(sent) b == Replies(recv) IN Len(b) <= Len(a) /\ \A i \in DOMAIN b : b[i][2] = a[i][2]
\* nothing in flight, nobody gone: both ends agree on the number of objects
Agree == (Mode = "closed" /\ c2s = <<>> /\ s2c = <<>> /\ ~ceof /\ ~seof /\ cl.alive /\ sv.alive) => cl.n = sv.n
\* answers match requests: the client never waits for a reply the server does not owe
Owed == (Mode = "closed" /\ ~ceof /\ ~seof /\ cl.alive /\ sv.alive) =>
    owed = due + Len(SelectSeq(c2s, LAMBDA m : m.type = "frame" \/ (Sot /\ m.type = "initialize"))) + (IF cl.n = 0 THEN 0 ELSE Len(s2c) \div cl.n)
\* in a session of this library on both ends no wait ever reports a protocol error before someone ends it
NoError == (Mode = "closed" /\ hist # <<>> /\ hist[Len(hist)].op \in {"swait", "cwait"} /\ hist[Len(hist)].exp.used > 0 /\ ~ceof /\ ~seof)
              => hist[Len(hist)].exp.res # "error"
\* a terminated handle sends nothing more
Final == \A i \in DOMAIN hist : \A j \in DOMAIN hist :
            (i < j /\ hist[i].side = hist[j].side /\ hist[i].op = "term") => hist[j].sent = <<>> \/ hist[j].op = "inject"
OneQuit == \A s \in {"c", "s"} : Cardinality({i \in DOMAIN hist : hist[i].side = s /\ hist[i].op = "term" /\ hist[i].sent # <<>>}) <= 1
RefusedSilent == \A i \in DOMAIN hist : (hist[i].op \in {"cinit", "cframe", "sreply", "sreplys"} /\ ~hist[i].exp.ok) => hist[i].sent = <<>>

Emit == (Len(hist) = MaxOps \/ ~ENABLED Next) => PrintT(<<"T", ToJson(hist)>>)
=============================================================================
