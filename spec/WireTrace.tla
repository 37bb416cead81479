------------------------------- MODULE WireTrace ------------------------------
(* Recorded frames, invocations, answers and sent messages against Wire.      *)
(* FOCUS says which part is judged: invocations (C27), calls (C28), what is   *)
(* sent to whom (C32). The parts that are not judged are followed where they  *)
(* matter for later steps, and the rest of the behaviour is skipped when they *)
(* cannot be.                                                                 *)
EXTENDS Wire, TraceLib
VARIABLE skip
tvars == <<regs, calls, pend, invs, frames, known, skip, l>>

TInit == Init /\ l = 1 /\ skip = FALSE
TReset == Is("reset") /\ regs' = {} /\ calls' = <<>> /\ pend' = <<>> /\ invs' = <<>> /\ frames' = <<>> /\ known' = {} /\ skip' = FALSE
Go(e) == ~skip /\ Is(e)
Keep == skip' = FALSE

TConf == /\ Go("conf") /\ Conf(Elems(E.regs)) /\ Keep
         /\ Focus = "C27" => \A i \in Idx(E.regs) : (E.regs[i].res = "ok") = RegOk(E.regs[i].end, E.regs[i].api)
TDl == Go("dl") /\ Arrive(E.sid, E.frame = "ok", Urls[E.u], E.ty, E.val) /\ Keep
TAns == Go("ans") /\ Answer(E.sid, E.k, E.end, E.ty, E.val) /\ Keep /\ E.rid = calls[E.k].rid
TLoop == /\ Go("loop") /\ Keep /\ E.there = (E.f \in DOMAIN frames)
         /\ IF E.there THEN Loop(E.sid, E.f) ELSE UNCHANGED wvars
TDrop == Go("drop") /\ Drop(E.k) /\ Keep

(* exactly one message went out, as asked *)
OneSent(to, sid, end, rid, ty, val, pri) ==
    /\ Len(E.sent) = 1
    /\ LET f == E.sent[1] IN
       /\ f.to = to /\ f.sid = sid /\ f.ty = ty /\ f.val = val /\ f.pri = pri
       /\ f.url = IF rid = "" THEN end ELSE end \o "/" \o rid
TCall ==
    /\ Go("call") /\ Keep
    /\ LET rid == IF E.sent = <<>> THEN "none" ELSE E.sent[1].last
           fails == CallFails(E.sid, E.end, E.send) IN
       /\ Call(E.sid, rid, E.end, E.ty, E.val, E.want, E.send)
       /\ IF fails THEN E.res = "err" /\ E.sent = <<>>
          ELSE E.res = "wait" /\ E.fresh /\ OneSent("one", E.sid, E.end, rid, E.ty, E.val, E.pri)
(* calls that the caller gave up at once: sent under new ids, and forgotten *)
TBurn == Go("burn") /\ Keep /\ E.sent = E.n /\ E.fresh /\ UNCHANGED wvars
TResp ==
    /\ Go("resp") /\ Keep /\ E.res # "noctx" /\ <<E.sid, E.rid>> \in known
    /\ Respond(E.sid, E.rid, E.end, E.ty, E.val, E.send)
    /\ IF RespondFails(E.end, E.send, E.rid) THEN E.res = "err" /\ E.sent = <<>>
       ELSE E.res = "ok" /\ OneSent("one", E.sid, E.end, E.rid, E.ty, E.val, E.pri)
(* the generator guessed a call id that no handler saw *)
TNoCtx == Go("resp") /\ Keep /\ E.res = "noctx" /\ <<E.sid, E.rid>> \notin known /\ UNCHANGED wvars
TCast ==
    /\ More /\ E.e \in {"bc", "cast"} /\ Go(E.e) /\ Keep
    /\ Cast(E.end, E.ty, E.val, E.send)
    /\ IF CastFails(E.end, E.send) THEN E.res = "err" /\ E.sent = <<>>
       ELSE /\ E.res = "ok" /\ OneSent(IF E.e = "bc" THEN "all" ELSE "users", 0, E.end, "", E.ty, E.val, E.pri)
            /\ E.e = "cast" => E.sent[1].users = E.users

(* what a settlement shows *)
Inv(i) == [end |-> E.inv[i].end, rid |-> E.inv[i].rid, sid |-> E.inv[i].sid, ty |-> E.inv[i].ty, val |-> E.inv[i].val]
Invs == [i \in Idx(E.inv) |-> Inv(i)]
DoneAt(k) == {i \in Idx(E.done) : E.done[i].k = k}
After == [k \in DOMAIN calls |-> IF DoneAt(k) = {} THEN calls[k]
                                 ELSE LET d == E.done[CHOOSE i \in DoneAt(k) : TRUE] IN [calls[k] EXCEPT !.st = d.res, !.val = d.val]]
InvsOk == E.panics = 0 /\ SameBag(Invs, Expected(pend))
CallsOk == /\ E.panics = 0 /\ E.sent = <<>>
           /\ \A i \in Idx(E.done) : E.done[i].k \in DOMAIN calls /\ calls[E.done[i].k].st = "wait" /\ DoneAt(E.done[i].k) = {i}
           /\ \A k \in DOMAIN calls : OutcomeOk(calls[k], pend, After[k].st, After[k].val)
TRun ==
    /\ Go("run") /\ pend' = <<>> /\ UNCHANGED <<regs, invs, frames>>
    /\ known' = known \cup {<<pend[i].sid, pend[i].rid>> : i \in {j \in DOMAIN pend : pend[j].kind = "rpc_call"}}
    /\ calls' = After
    /\ CASE Focus = "C27" -> InvsOk /\ Keep
         [] Focus = "C28" -> CallsOk /\ Keep
         [] OTHER -> Keep

(* a step that is not this property's: when it does not fit, the rest is not judged *)
MyEvents == CASE Focus = "C27" -> {"conf", "dl", "loop", "run"}
              [] Focus = "C28" -> {"call", "burn", "resp", "ans", "drop", "run"}
              [] Focus = "C32" -> {"bc", "cast"}
              [] OTHER -> {}
Steps == TConf \/ TDl \/ TAns \/ TLoop \/ TDrop \/ TCall \/ TBurn \/ TResp \/ TNoCtx \/ TCast \/ TRun
TLose == /\ More /\ ~skip /\ E.e \notin {"reset", "crash"} /\ (E.e \notin MyEvents \/ (E.e = "resp" /\ E.res = "noctx")) /\ ~ENABLED Steps
         /\ l' = l + 1 /\ skip' = TRUE /\ UNCHANGED wvars /\ Unjudged
TSkip == /\ More /\ skip /\ E.e \notin {"reset", "crash"} /\ l' = l + 1 /\ UNCHANGED <<regs, calls, pend, invs, frames, known, skip>> /\ Unjudged
TNext == TReset \/ Steps \/ TLose \/ TSkip
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
