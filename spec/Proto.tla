------------------------------- MODULE Proto -------------------------------
(* The protocol layer: what one call on a handle does, as a function of the handle's state and of the
   messages waiting at its input.  Payloads (images, regions, named arguments) are opaque values: an image
   argument is [k |-> "img", f |-> kind, v |-> id, ok |-> decodable], a region argument
   [k |-> "reg", v |-> id, ok |-> decodable].  Messages are [type, args, props].

   A handle is [alive, n]: n is the number of active objects.  cfg = [ver, nch, multi, fmts].          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Msg(t, a, p) == [type |-> t, args |-> a, props |-> p]
ImgOk(cfg, a) == a.ok /\ a.f \in cfg.fmts

\* A wait's answer: res, images, objects (sequence of <<region, props>>), props, used = messages consumed,
\* eof = the wait needs a message that is not there (it blocks; at end of stream it is an error).
Ans(res, im, ob, pr, used) == [res |-> res, images |-> im, objects |-> ob, props |-> pr, used |-> used]
None == "none"        \* an absent payload
Nil == <<>>           \* an absent list of images or objects
Err(used) == Ans("error", Nil, Nil, "none", used)
Blocked == Ans("blocked", Nil, Nil, "none", 0)

Vals(args) == [i \in DOMAIN args |-> args[i].v]

---------------------------------------------------------------------------
(* Tracker side, single-object interface (versions 1 to 3). One message per wait. *)
SotWait(cfg, h, in) ==   \* <<answer, new handle>>
    IF ~h.alive \/ cfg.ver >= 4 THEN <<Err(0), h>>
    ELSE IF in = <<>> THEN <<Blocked, h>>
    ELSE LET m == in[1]  a == m.args  n == cfg.nch
             imgs(k) == \A i \in 1..k : ImgOk(cfg, a[i])
         IN CASE m.type = "frame" /\ h.n > 0 /\ Len(a) = n /\ imgs(n)
                   -> <<Ans("frame", Vals(a), Nil, m.props, 1), h>>
              [] m.type = "initialize" /\ Len(a) = n + 1 /\ imgs(n) /\ a[n + 1].ok
                   -> <<Ans("initialize", Vals(SubSeq(a, 1, n)), << <<a[n + 1].v, "none">> >>, m.props, 1), [h EXCEPT !.n = 1]>>
              [] m.type = "quit" /\ Len(a) = 0
                   -> <<Ans("quit", Nil, Nil, m.props, 1), [h EXCEPT !.alive = FALSE]>>
              [] OTHER -> <<Err(1), h>>

(* Tracker side, multi-object interface: object messages are collected until the frame arrives. An empty
   initialize drops all objects, those already active and those collected so far.                     *)
RECURSIVE MotScan(_, _, _, _, _, _)
MotScan(cfg, h, in, i, init, pend) ==
    IF i > Len(in) THEN <<Blocked, h>>
    ELSE LET m == in[i]  a == m.args IN
    CASE m.type = "quit" -> IF Len(a) = 0 THEN <<Ans("quit", Nil, Nil, m.props, i), [h EXCEPT !.alive = FALSE]>> ELSE <<Err(i), h>>
      [] m.type = "initialize" /\ Len(a) = 0 -> MotScan(cfg, [h EXCEPT !.n = 0], in, i + 1, TRUE, <<>>)
      [] m.type = "initialize" /\ Len(a) = 1 /\ a[1].ok -> MotScan(cfg, h, in, i + 1, TRUE, Append(pend, <<a[1].v, m.props>>))
      [] m.type = "frame" /\ Len(a) = cfg.nch /\ (\A k \in DOMAIN a : ImgOk(cfg, a[k])) /\ h.n + Len(pend) > 0 /\ (init => pend # <<>>)
           -> <<Ans(IF init /\ h.n = 0 THEN "initialize" ELSE "frame", Vals(a), pend, m.props, i),
                [h EXCEPT !.n = @ + Len(pend)]>>
      [] OTHER -> <<Err(i), h>>
MotWait(cfg, h, in) == IF ~h.alive THEN <<Err(0), h>> ELSE MotScan(cfg, h, in, 1, FALSE, <<>>)

(* Client side: one state message per active object, or quit. *)
RECURSIVE CliScan(_, _, _, _)
CliScan(h, in, i, got) ==
    IF Len(got) = h.n THEN <<Ans("state", Nil, got, "none", i - 1), h>>
    ELSE IF i > Len(in) THEN <<Blocked, h>>
    ELSE LET m == in[i] a == m.args IN
    CASE m.type = "state" /\ Len(a) = 1 /\ a[1].ok -> CliScan(h, in, i + 1, Append(got, <<a[1].v, m.props>>))
      [] m.type = "quit" /\ Len(a) = 0 -> <<Ans("quit", Nil, Nil, m.props, i), [h EXCEPT !.alive = FALSE]>>
      [] OTHER -> <<Err(i), h>>
CliWait(h, in) == IF ~h.alive \/ h.n = 0 THEN <<Err(0), h>> ELSE CliScan(h, in, 1, <<>>)

---------------------------------------------------------------------------
(* Calls that send. Each gives <<accepted, messages sent, new handle, reason>>.
   imgs: images per supported channel, "none" where missing; objs: sequence of <<region, props>>.      *)
Refuse(h, why) == <<FALSE, <<>>, h, why>>
Have(imgs) == \A i \in DOMAIN imgs : imgs[i] # None
ImgArg(v) == [k |-> "img", f |-> "path", v |-> v, ok |-> TRUE]
RegArg(v) == [k |-> "reg", v |-> v, ok |-> TRUE]
ImgArgs(imgs) == [i \in DOMAIN imgs |-> ImgArg(imgs[i])]
ObjMsgs(objs) == [i \in DOMAIN objs |-> Msg("initialize", <<RegArg(objs[i][1])>>, objs[i][2])]

\* an object that is no region (a special code) cannot be tracked
Trackable(objs) == \A i \in DOMAIN objs : objs[i][1] # "special"

CliInit(cfg, h, imgs, objs, props) ==
    IF ~h.alive THEN Refuse(h, "alive")
    ELSE IF Len(objs) = 0 THEN Refuse(h, "object")
    ELSE IF Len(objs) > 1 /\ ~cfg.multi THEN Refuse(h, "object")
    ELSE IF ~Have(imgs) THEN Refuse(h, "channel")
    ELSE IF ~Trackable(objs) THEN Refuse(h, "region")
    ELSE IF cfg.ver >= 4
         THEN <<TRUE, (IF h.n > 0 THEN <<Msg("initialize", <<>>, "none")>> ELSE <<>>) \o ObjMsgs(objs) \o <<Msg("frame", ImgArgs(imgs), props)>>,
                [h EXCEPT !.n = Len(objs)], "">>
         ELSE <<TRUE, <<Msg("initialize", ImgArgs(imgs) \o <<RegArg(objs[1][1])>>, props)>>, [h EXCEPT !.n = 1], "">>

CliFrame(cfg, h, imgs, objs, props) ==
    IF ~h.alive THEN Refuse(h, "alive")
    ELSE IF Len(objs) > 0 /\ cfg.ver < 4 THEN Refuse(h, "object")
    ELSE IF h.n + Len(objs) > 1 /\ ~cfg.multi THEN Refuse(h, "mode")
    ELSE IF h.n + Len(objs) = 0 THEN Refuse(h, "object")
    ELSE IF ~Have(imgs) THEN Refuse(h, "channel")
    ELSE IF ~Trackable(objs) THEN Refuse(h, "region")
    ELSE <<TRUE, ObjMsgs(objs) \o <<Msg("frame", ImgArgs(imgs), props)>>, [h EXCEPT !.n = @ + Len(objs)], "">>

SotReply(cfg, h, reg, props) ==
    IF ~h.alive THEN Refuse(h, "alive")
    ELSE IF cfg.ver >= 4 THEN Refuse(h, "mode")
    ELSE <<TRUE, <<Msg("state", <<RegArg(reg)>>, props)>>, h, "">>
MotReply(cfg, h, objs) ==
    IF ~h.alive THEN Refuse(h, "alive")
    ELSE IF ~cfg.multi /\ Len(objs) # 1 THEN Refuse(h, "mode")
    ELSE IF Len(objs) # h.n THEN Refuse(h, "count")
    ELSE <<TRUE, [i \in DOMAIN objs |-> Msg("state", <<RegArg(objs[i][1])>>, objs[i][2])], h, "">>

Terminate(h, reason) ==
    IF ~h.alive THEN <<TRUE, <<>>, h, "">>
    ELSE <<TRUE, <<Msg("quit", <<>>, reason)>>, [h EXCEPT !.alive = FALSE], "">>
=============================================================================
