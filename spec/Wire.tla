--------------------------------- MODULE Wire ---------------------------------
(* From received frames to handlers, and remote calls (core/network: reactor, *)
(* endpoint, rpc_map, outbound). The transport is the environment.            *)
(*                                                                            *)
(* A frame holds a URL and a content. A URL names a scheme, a service and a   *)
(* method, and for calls and responses a call id. The table says by hand what *)
(* each URL that occurs means; the code has to find out by parsing.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

U(raw, kind, root, rid) == [raw |-> raw, kind |-> kind, root |-> root, rid |-> rid]
Urls == <<
    U("/gossip/a/b", "gossip", "/gossip/a/b", ""),
    U("/gossip/a/bc", "gossip", "/gossip/a/bc", ""),
    U("/gossip/ab/c", "gossip", "/gossip/ab/c", ""),
    U("/gossip/b/a", "gossip", "/gossip/b/a", ""),
    U("/gossip/a/b/c", "gossip", "/gossip/a/b", ""),
    U("/gossip/a/b/7", "gossip", "/gossip/a/b", ""),
    U("/gossip/a", "bad", "", ""),
    U("/gossip/a/b/c/d", "bad", "", ""),
    U("/gossip/A/b", "gossip", "/gossip/A/b", ""),
    U("/gossipx/a/b", "gossip", "/gossipx/a/b", ""),
    U("/gossip", "bad", "", ""),
    U("", "bad", "", ""),
    U("/", "bad", "", ""),
    U("gossip/a/b", "bad", "", ""),
    U("/rpc/a/b", "bad", "", ""),
    U("/goss/a/b", "bad", "", ""),
    U("/gossip/a/xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "gossip", "/gossip/a/xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", ""),
    U("/gossip/a/xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "bad", "", ""),
    U("/rpc_call/a/b/0", "rpc_call", "/rpc_call/a/b", "0"),
    U("/rpc_call/a/b/7", "rpc_call", "/rpc_call/a/b", "7"),
    U("/rpc_call/a/b/18446744073709551615", "rpc_call", "/rpc_call/a/b", "18446744073709551615"),
    U("/rpc_call/a/b/18446744073709551616", "rpc_call", "/rpc_call/a/b", "bad"),
    U("/rpc_call/a/b/4294967299", "rpc_call", "/rpc_call/a/b", "4294967299"),
    U("/rpc_call/a/b/x1", "rpc_call", "/rpc_call/a/b", "bad"),
    U("/rpc_call/a/b/-1", "rpc_call", "/rpc_call/a/b", "bad"),
    U("/rpc_call/a/b/", "rpc_call", "/rpc_call/a/b", "bad"),
    U("/rpc_call/a/b", "rpc_call", "/rpc_call/a/b", "bad"),
    U("/rpc_call/a/r/7", "rpc_call", "/rpc_call/a/r", "7"),
    U("/rpc_call/ab/r/7", "rpc_call", "/rpc_call/ab/r", "7"),
    U("/rpc_call/a/b/1/2", "bad", "", ""),
    U("/rpc_call/a/yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy/1234", "bad", "", ""),
    U("/rpc_resp/a/b/0", "rpc_resp", "/rpc_resp/a/b", "0"),
    U("/rpc_resp/a/b/1", "rpc_resp", "/rpc_resp/a/b", "1"),
    U("/rpc_resp/a/b/2", "rpc_resp", "/rpc_resp/a/b", "2"),
    U("/rpc_resp/a/r/0", "rpc_resp", "/rpc_resp/a/r", "0"),
    U("/rpc_resp/a/r/1", "rpc_resp", "/rpc_resp/a/r", "1"),
    U("/rpc_resp/b/a/0", "rpc_resp", "/rpc_resp/b/a", "0"),
    U("/rpc_resp/a/b/18446744073709551615", "rpc_resp", "/rpc_resp/a/b", "18446744073709551615"),
    U("/rpc_resp/a/b/4294967296", "rpc_resp", "/rpc_resp/a/b", "4294967296"),
    U("/rpc_resp/a/b/zz", "rpc_resp", "/rpc_resp/a/b", "bad"),
    U("/rpc_resp/a/b", "rpc_resp", "/rpc_resp/a/b", "bad"),
    U("/rpc_respond/a/b/0", "rpc_resp", "/rpc_respond/a/b", "0")
>>
(* longest endpoints: one that takes no more, and two too long to add a call id to *)
Long120 == "/gossip/a/xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
Long121 == "/gossip/a/xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"
LongCall == "/rpc_call/a/yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"
LongResp == "/rpc_resp/a/zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"
(* a reply to call id 0 at an endpoint is 2 characters longer *)
TooLong == {LongCall, LongResp, Long121}

Gossips == {"/gossip/a/b", "/gossip/a/bc", "/gossip/ab/c", "/gossip/b/a"}
RpcCalls == {"/rpc_call/a/b", "/rpc_call/a/r", "/rpc_call/ab/r"}
Resps == {"/rpc_resp/a/b", "/rpc_resp/a/r", "/rpc_resp/b/a"}
KindOf(end) == IF end \in Gossips \cup {Long120} THEN "gossip"
               ELSE IF end \in RpcCalls \cup {LongCall} THEN "rpc_call"
               ELSE IF end \in Resps \cup {LongResp} THEN "rpc_resp" ELSE "bad"

VARIABLES regs,     \* what is registered: [end, ty], one per endpoint
          calls,    \* calls made, in order: [sid, rid, want, st, val]
          pend,     \* frames that arrived and reach something, not yet handled
          invs,     \* handler invocations since the last settlement
          frames,   \* what was sent, in order: [end, rid, ty, val]
          known     \* sessions and call ids of the calls that handlers saw
wvars == <<regs, calls, pend, invs, frames, known>>

Init == regs = {} /\ calls = <<>> /\ pend = <<>> /\ invs = <<>> /\ frames = <<>> /\ known = {}

(* ---- registration ---- *)
(* a handler serves gossip and calls; responses are registered as such *)
RegOk(end, api) == KindOf(end) \in (IF api = "resp" THEN {"rpc_resp"} ELSE {"gossip", "rpc_call"})
Conf(rs) == /\ regs' = {[end |-> r.end, ty |-> r.ty] : r \in {x \in rs : RegOk(x.end, x.api)}}
            /\ UNCHANGED <<calls, pend, invs, frames, known>>

(* ---- arrival: a frame reaches the endpoint it names, or nothing ---- *)
Reaches(kind, root, rid, ty) ==
    /\ kind # "bad"
    /\ [end |-> root, ty |-> ty] \in regs
    /\ kind = "gossip" \/ rid # "bad"
Msg(kind, root, rid, sid, ty, val) ==
    [kind |-> kind, end |-> root, rid |-> IF kind = "gossip" THEN "-" ELSE rid, sid |-> sid, ty |-> ty, val |-> val]
ArriveM(ok, kind, root, rid, sid, ty, val) ==
    /\ pend' = IF ok /\ Reaches(kind, root, rid, ty) THEN Append(pend, Msg(kind, root, rid, sid, ty, val)) ELSE pend
    /\ UNCHANGED <<regs, calls, invs, frames, known>>
Arrive(sid, ok, u, ty, val) == ArriveM(ok, u.kind, u.root, u.rid, sid, ty, val)
Answer(sid, k, end, ty, val) == ArriveM(calls[k].rid # "none", KindOf(end), end, calls[k].rid, sid, ty, val)
(* a frame that the node sent comes in at another node (here, itself) *)
Loop(sid, f) == ArriveM(TRUE, KindOf(frames[f].end), frames[f].end, frames[f].rid, sid, frames[f].ty, frames[f].val)

(* ---- handling one frame ---- *)
Waiting(sid, rid) == {k \in DOMAIN calls : calls[k].st = "wait" /\ calls[k].sid = sid /\ calls[k].rid = rid}
Remove(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Finish(k, st, val) == calls' = [calls EXCEPT ![k].st = st, ![k].val = val]
Handle(i) ==
    LET m == pend[i] IN
    /\ pend' = Remove(pend, i) /\ UNCHANGED <<regs, frames>>
    /\ IF m.kind # "rpc_resp"
       THEN /\ invs' = Append(invs, m) /\ UNCHANGED calls
            /\ known' = IF m.kind = "rpc_call" THEN known \cup {<<m.sid, m.rid>>} ELSE known
       ELSE /\ UNCHANGED <<invs, known>>
            /\ LET W == Waiting(m.sid, m.rid) IN
               IF W = {} THEN UNCHANGED calls
               ELSE LET k == CHOOSE k \in W : TRUE IN
                    IF calls[k].want = m.ty THEN Finish(k, "ok", m.val)
                    ELSE UNCHANGED calls \/ Finish(k, "err", 0)       \* not what the caller expects: at most an error

(* ---- the same for everything that arrived: any order, as seen from outside ---- *)
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in DOMAIN p : Count(p, p[i]) = Count(q, p[i])
IsInv(m) == m.kind # "rpc_resp"
Strip(m) == [end |-> m.end, rid |-> m.rid, sid |-> m.sid, ty |-> m.ty, val |-> m.val]
Expected(q) == LET s == SelectSeq(q, IsInv) IN [i \in DOMAIN s |-> Strip(s[i])]
(* outcome of call c of cs given that q was handled *)
OutcomeOk(c, q, st, val) ==
    LET A == {q[i] : i \in {j \in DOMAIN q : q[j].kind = "rpc_resp" /\ q[j].sid = c.sid /\ q[j].rid = c.rid}}
        G == {m \in A : m.ty = c.want}
    IN  IF c.st # "wait" THEN st = c.st /\ val = c.val
        ELSE CASE st = "wait" -> G = {}
               [] st = "ok" -> val \in {m.val : m \in G}
               [] st = "err" -> A # G
               [] OTHER -> FALSE
(* calls' and the invocations iv are a possible result of handling pend *)
Settle(iv) ==
    /\ SameBag(iv, Expected(pend))
    /\ Len(calls') = Len(calls)
    /\ \A k \in DOMAIN calls : /\ OutcomeOk(calls[k], pend, calls'[k].st, calls'[k].val)
                               /\ calls'[k] = [calls[k] EXCEPT !.st = calls'[k].st, !.val = calls'[k].val]
    /\ pend' = <<>> /\ UNCHANGED <<regs, invs, frames>>
    /\ known' = known \cup {<<pend[i].sid, pend[i].rid>> : i \in {j \in DOMAIN pend : pend[j].kind = "rpc_call"}}

(* ---- remote calls ---- *)
Used(sid) == {calls[k].rid : k \in {j \in DOMAIN calls : calls[j].sid = sid}}
NewCall(sid, rid, want, st) == calls' = Append(calls, [sid |-> sid, rid |-> rid, want |-> want, st |-> st, val |-> 0])
CallFails(sid, end, send) == sid = 0 \/ send = "fail" \/ end \in TooLong \/ KindOf(end) = "bad"
(* it is sent to its session under an id no other call to that session has *)
Call(sid, rid, end, ty, val, want, send) ==
    /\ UNCHANGED <<regs, pend, invs, known>>
    /\ IF CallFails(sid, end, send) THEN NewCall(sid, "none", want, "err") /\ UNCHANGED frames
       ELSE /\ rid \notin Used(sid) /\ NewCall(sid, rid, want, "wait")
            /\ frames' = Append(frames, [end |-> end, rid |-> rid, ty |-> ty, val |-> val])
Drop(k) == /\ calls' = IF calls[k].st = "wait" THEN [calls EXCEPT ![k].st = "dropped"] ELSE calls
           /\ UNCHANGED <<regs, pend, invs, frames, known>>
RespondFails(end, send, rid) == send = "fail" \/ end \in TooLong \/ KindOf(end) = "bad" \/ rid = "-"
Respond(sid, rid, end, ty, val, send) ==
    /\ UNCHANGED <<regs, calls, pend, invs, known>>
    /\ frames' = IF RespondFails(end, send, rid) THEN frames ELSE Append(frames, [end |-> end, rid |-> rid, ty |-> ty, val |-> val])

(* ---- gossip ---- *)
CastFails(end, send) == send = "fail" \/ KindOf(end) = "bad"
Cast(end, ty, val, send) ==
    /\ UNCHANGED <<regs, calls, pend, invs, known>>
    /\ frames' = IF CastFails(end, send) THEN frames ELSE Append(frames, [end |-> end, rid |-> "", ty |-> ty, val |-> val])
=============================================================================
