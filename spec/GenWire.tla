------------------------------- MODULE GenWire --------------------------------
EXTENDS Wire, Json
CONSTANTS Mode, MaxOps, Depth
VARIABLES ops, done, base
gvars == <<regs, calls, pend, invs, frames, known, ops, done, base>>

Reg(end, ty, api) == [end |-> end, ty |-> ty, api |-> api]
OpConf(rs) == [op |-> "conf", regs |-> rs]
OpDl(sid, frame, u, ty, val) == [op |-> "dl", sid |-> sid, frame |-> frame, u |-> u, raw |-> Urls[u].raw, ty |-> ty, val |-> val]
OpAns(sid, k, end, ty, val) == [op |-> "ans", sid |-> sid, k |-> k, end |-> end, ty |-> ty, val |-> val]
OpRun(seed) == [op |-> "run", seed |-> seed]
OpCall(sid, end, ty, val, want, send, pri) ==
    [op |-> "call", sid |-> sid, end |-> end, ty |-> ty, val |-> val, want |-> want, send |-> send, pri |-> pri]
OpDrop(k) == [op |-> "drop", k |-> k]
Out(o) == ops' = Append(ops, o)
Range(q) == {q[i] : i \in DOMAIN q}
NextRid == ToString(Len(frames))

(* ---- exhaustive ---- *)
StdRegs == <<Reg("/gossip/a/b", "T", "handler"), Reg("/gossip/ab/c", "N", "handler"), Reg("/rpc_call/a/b", "T", "handler"),
             Reg("/rpc_resp/a/b", "T", "resp"), Reg("/rpc_resp/a/r", "N", "resp")>>
GInit == /\ Init /\ done = FALSE /\ ops = <<>> /\ base = <<>>
Start == /\ ops = <<>> /\ Conf(Range(StdRegs)) /\ Out(OpConf(StdRegs)) /\ UNCHANGED <<done, base>>
V(n) == 10 * Len(ops) + n
(* one frame of any kind between two good ones *)
RouteNext ==
    /\ Mode = "route" /\ UNCHANGED <<done, base>>
    /\ CASE Len(ops) = 1 -> Arrive(1, TRUE, Urls[1], "T", 11) /\ Out(OpDl(1, "ok", 1, "T", 11))
         [] Len(ops) = 2 -> \E u \in DOMAIN Urls, f \in {"ok", "plain", "garbage", "nomsg", "cut", "empty"}, ty \in {"T", "N", "bad"} :
                                /\ f # "ok" => u \in {1, 19} /\ ty = "T"
                                /\ Arrive(2, f = "ok", Urls[u], ty, 22) /\ Out(OpDl(2, f, u, ty, 22))
         [] Len(ops) = 3 -> Arrive(2, TRUE, Urls[19], "T", 33) /\ Out(OpDl(2, "ok", 19, "T", 33))
         [] Len(ops) = 4 -> /\ Out(OpRun(1)) /\ pend' = <<>> /\ UNCHANGED <<regs, calls, invs, frames, known>>
         [] OTHER -> FALSE
(* two calls, then every sequence of answers, drops and handlings *)
Two == <<OpCall(1, "/rpc_call/x/y", "T", 1, "T", "ok", "high"), OpCall(1, "/rpc_call/x/y", "T", 2, "N", "ok", "normal")>>
RpcNext ==
    /\ Mode = "rpc" /\ UNCHANGED done
    /\ \/ /\ Len(ops) \in {1, 2} /\ UNCHANGED base
          /\ LET o == [Two[Len(ops)] EXCEPT !.end = "/rpc_call/a/b"] IN Call(o.sid, NextRid, o.end, o.ty, o.val, o.want, o.send) /\ Out(o)
       \/ /\ Len(ops) \in 3..(2 + Depth)
          /\ \/ /\ UNCHANGED base
                /\ \E k \in {1, 2}, sid \in {1, 2}, p \in {<<"/rpc_resp/a/b", "T">>, <<"/rpc_resp/a/b", "N">>, <<"/rpc_resp/a/r", "N">>} :
                      Answer(sid, k, p[1], p[2], V(k)) /\ Out(OpAns(sid, k, p[1], p[2], V(k)))
             \/ \E k \in {1, 2} : UNCHANGED base /\ Drop(k) /\ Out(OpDrop(k))
             \/ /\ pend # <<>> /\ ops[Len(ops)].op # "run" /\ Out(OpRun(Len(ops))) /\ base' = <<pend, calls>> /\ UNCHANGED wvars
       \/ (* a started handling goes on to its end *)
          /\ ops # <<>> /\ ops[Len(ops)].op = "run" /\ UNCHANGED <<ops, base>> /\ \E i \in DOMAIN pend : Handle(i)
Busy == Mode = "rpc" /\ ops # <<>> /\ ops[Len(ops)].op = "run" /\ pend # <<>>
SmallNext == \/ Mode # "random" /\ Start
             \/ RouteNext
             \/ RpcNext /\ (Busy => UNCHANGED ops)
Closed == CASE Mode = "route" -> Len(ops) = 5
            [] Mode = "rpc" -> Len(ops) = 3 + Depth
            [] OTHER -> FALSE
Whole(o) == IF o[Len(o)].op = "run" THEN o ELSE Append(o, OpRun(3))
PrintAll == (Closed' /\ ~Closed) => PrintT("BEH " \o ToJson(Whole(ops')))

(* what the specification promises, whatever the order of handling *)
OncePerCall == [][\A k \in DOMAIN calls : calls[k].st # "wait" => calls'[k] = calls[k]]_gvars
OwnAnswer == \A k \in DOMAIN calls : calls[k].st = "ok" =>
                 \E i \in DOMAIN ops : ops[i].op = "ans" /\ ops[i].k = k /\ ops[i].sid = calls[k].sid /\ ops[i].val = calls[k].val /\ ops[i].ty = calls[k].want
DistinctIds == \A j, k \in DOMAIN calls : j # k /\ calls[j].sid = calls[k].sid /\ calls[j].rid # "none" => calls[j].rid # calls[k].rid
(* handling one by one ends where the one step that the traces are checked with allows *)
Settled == (Mode = "rpc" /\ base # <<>> /\ pend = <<>> /\ ops[Len(ops)].op = "run") =>
               \A k \in DOMAIN base[2] : OutcomeOk(base[2][k], base[1], calls[k].st, calls[k].val)

(* ---- random ---- *)
Pick(q) == q[RandomElement(1..Len(q))]
RTy(z) == Pick(<<"T", "T", "N">>)
RVal(z) == 10 * Len(ops) + Pick(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 2, 3>>)
RSid(z) == RandomElement(1..3)
RPri(z) == Pick(<<"high", "normal">>)
RSend(z) == Pick(<<"ok", "ok", "ok", "ok", "ok", "fail">>)
REnds(z) == LET P == RandomElement({0, 1, 2, 3}) IN
            {e \in Gossips \cup RpcCalls \cup Resps : P = 0 \/ RandomElement(1..4) # 1}
SeqOf(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
RApi(e) == IF RandomElement(1..25) = 1 THEN Pick(<<"resp", "handler">>) ELSE IF KindOf(e) = "rpc_resp" THEN "resp" ELSE "handler"
RConf(E) == LET q == SeqOf(E \cup (IF RandomElement(1..3) = 1 THEN {Pick(<<Long120, Long121, "/gossip/a", "/rpc/a/b">>)} ELSE {})) IN
            [i \in DOMAIN q |-> Reg(q[i], RTy(i), RApi(q[i]))]
RGood(z) == (* a URL that is registered, most of the time *)
    LET S == {u \in DOMAIN Urls : \E r \in regs : r.end = Urls[u].root} IN
    IF S = {} \/ RandomElement(1..4) = 1 THEN RandomElement(DOMAIN Urls) ELSE RandomElement(S)
RTyOf(u) == LET S == {r \in regs : r.end = Urls[u].root} IN
            IF S = {} \/ RandomElement(1..6) = 1 THEN Pick(<<"T", "N", "bad">>) ELSE (CHOOSE r \in S : TRUE).ty
Waits == {k \in DOMAIN calls : calls[k].st = "wait"}
REnd(S, o) == IF RandomElement(1..15) = 1 THEN o ELSE RandomElement(S)
RunR(z) == (* what comes out is left to the traces; here every answered call is taken as answered *)
    /\ pend' = <<>> /\ UNCHANGED <<regs, invs, frames>>
    /\ known' = known \cup {<<pend[i].sid, pend[i].rid>> : i \in {j \in DOMAIN pend : pend[j].kind = "rpc_call"}}
    /\ calls' = [k \in DOMAIN calls |-> IF calls[k].st = "wait" /\ \E i \in DOMAIN pend : pend[i].kind = "rpc_resp" /\ pend[i].sid = calls[k].sid
                                              /\ pend[i].rid = calls[k].rid /\ pend[i].ty = calls[k].want
                                        THEN [calls[k] EXCEPT !.st = "ok"] ELSE calls[k]]
RandNext ==
    /\ Mode = "random" /\ Len(ops) < MaxOps /\ UNCHANGED <<done, base>>
    /\ IF ops = <<>> THEN \E E \in {REnds(0)} : \E rs \in {RConf(E)} : Conf(Range(rs)) /\ Out(OpConf(rs))
       ELSE IF Len(ops) = 1 /\ RandomElement(1..20) = 1
            THEN \E sid \in {RSid(1)}, n \in {Pick(<<257, 300, 70000>>)} : Out([op |-> "burn", sid |-> sid, n |-> n]) /\ UNCHANGED wvars
       ELSE IF Len(ops) = MaxOps - 1 THEN \E sd \in {RandomElement(1..100000)} : Out(OpRun(sd)) /\ RunR(0)
       ELSE \E c \in {Pick(<<"dl", "dl", "dl", "dl", "dl", "run", "run", "call", "call", "ans", "ans", "ans", "drop", "resp", "resp", "bc", "cast", "loop">>)},
               sid \in {RSid(1)}, val \in {RVal(1)}, ty \in {RTy(1)}, pri \in {RPri(1)}, send \in {RSend(1)}, want \in {RTy(2)} :
            CASE c = "dl" -> \E u \in {RGood(0)} : \E t \in {RTyOf(u)}, f \in {Pick(<<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "plain", "garbage", "nomsg", "cut", "empty">>)} :
                                Arrive(sid, f = "ok", Urls[u], t, val) /\ Out(OpDl(sid, f, u, t, val))
              [] c = "call" \/ (calls = <<>> /\ c \in {"ans", "drop"}) ->
                    \E s0 \in {IF RandomElement(1..20) = 1 THEN 0 ELSE sid}, e \in {REnd(RpcCalls, Pick(<<LongCall, "/rpc_call/a">>))} :
                       Call(s0, NextRid, e, ty, val, want, send) /\ Out(OpCall(s0, e, ty, val, want, send, pri))
              [] c = "ans" /\ calls # <<>> ->
                    \E k \in {IF Waits = {} THEN RandomElement(DOMAIN calls) ELSE RandomElement(Waits)} :
                    \E s1 \in {IF RandomElement(1..5) = 1 THEN sid ELSE IF calls[k].sid = 0 THEN 1 ELSE calls[k].sid},
                       e \in {RandomElement(Resps)} :
                    \E t \in {IF RandomElement(1..6) = 1 THEN "N" ELSE IF \E r \in regs : r.end = e THEN (CHOOSE r \in regs : r.end = e).ty ELSE "T"} :
                       Answer(s1, k, e, t, val) /\ Out(OpAns(s1, k, e, t, val))
              [] c = "drop" /\ calls # <<>> -> \E k \in {RandomElement(DOMAIN calls)} : Drop(k) /\ Out(OpDrop(k))
              [] c = "run" \/ (c = "resp" /\ known = {}) \/ (c = "loop" /\ frames = <<>>) -> \E sd \in {RandomElement(1..100000)} : Out(OpRun(sd)) /\ RunR(0)
              [] c = "resp" /\ known # {} -> \E x \in {RandomElement(known)}, e \in {REnd(Resps, LongResp)} :
                    /\ Respond(x[1], x[2], e, ty, val, send)
                    /\ Out([op |-> "resp", sid |-> x[1], rid |-> x[2], end |-> e, ty |-> ty, val |-> val, send |-> send, pri |-> pri])
              [] c \in {"bc", "cast"} -> \E e \in {REnd(Gossips, Pick(<<Long120, Long121, "/gossip/a">>))}, us \in {Pick(<<<<>>, <<"u1">>, <<"u2", "u3">>, <<"u3", "u1", "u2">>>>)} :
                    /\ Cast(e, ty, val, send)
                    /\ Out([op |-> c, end |-> e, ty |-> ty, val |-> val, send |-> send, pri |-> pri, users |-> us])
              [] c = "loop" /\ frames # <<>> -> \E f \in {RandomElement(DOMAIN frames)} : Loop(sid, f) /\ Out([op |-> "loop", sid |-> sid, f |-> f])
GDone == /\ Mode = "random" /\ Len(ops) = MaxOps /\ ~done
         /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<regs, calls, pend, invs, frames, known, ops, base>>
GNext == SmallNext \/ RandNext \/ GDone
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
