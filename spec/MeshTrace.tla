------------------------------ MODULE MeshTrace -------------------------------
(* Recorded runs of real nodes against Mesh. FOCUS: C27 what is received is    *)
(* what was sent, once; C28 calls; C31 lost bootstrap peers come back; C32 who *)
(* is reached and what the sender is told (links are seen by messages, so that *)
(* links that do not come up count for C27, C31 and C32). An operation is      *)
(* tried again when something is missing (a connection may just have gone):    *)
(* missing things count in the last try only, wrong things in every one.       *)
EXTENDS Mesh, TraceLib
VARIABLES skip
tvars == <<n, boots, up, skip, l>>

TInit == l = 1 /\ skip = FALSE /\ n = 0 /\ boots = <<>> /\ up = {}
TReset == Is("reset") /\ skip' = FALSE /\ n' = 0 /\ boots' = <<>> /\ up' = {}
Go(e) == ~skip /\ Is(e) /\ UNCHANGED skip
Same == UNCHANGED <<n, boots, up>>
Last(q) == q[Len(q)]

TNet == Go("net") /\ Net(E.n, [i \in 1..E.n |-> Elems(E.boots[i])])
TStart == Go("start") /\ Start(E.i)
TKill == Go("kill") /\ Kill(E.i)

Settled == Links \subseteq {<<p[1], p[2]>> : p \in Elems(E.links)}
(* a reception: who, at which endpoint, from whom, how often, content intact *)
Who(got) == {g[1] : g \in Elems(got)}
Clean(t) == \A g \in Elems(t.got) : g[2] = E.end /\ g[3] = E.i /\ g[4] = 1 /\ g[5]
Reached(t) == Wanted(E.i, E.all, Elems(E.to)) \subseteq Who(t.got)
Only(t) == Who(t.got) \subseteq Allowed(E.i, E.all, Elems(E.to))
Told(t) == IF E.all \/ Succeeds(E.i, Elems(E.to)) THEN t.ret = "ok" ELSE Fails(E.i, Elems(E.to)) => t.ret = "err"
(* an answer: whose, to this call, content intact; or an error (-1) *)
Good(c) == c.answers = <<<<c.to, TRUE, TRUE>>>> /\ c.asked = <<<<c.to, E.i>>>>
Fair(c) == /\ Len(c.answers) <= 1 /\ Len(c.asked) <= 1
           /\ \A a \in Elems(c.answers) : (a[1] = -1 \/ a = <<c.to, TRUE, TRUE>>)
           /\ \A a \in Elems(c.asked) : a = <<c.to, E.i>>

Fine ==
    CASE E.e = "settle" -> Settled
      [] E.e = "send" -> (\A t \in Elems(E.tries) : Clean(t) /\ Only(t)) /\ Reached(Last(E.tries)) /\ Told(Last(E.tries))
      [] E.e = "ask" -> (\A k \in Idx(E.tries) : \A c \in Elems(E.tries[k]) : Fair(c)) /\ \A c \in Elems(Last(E.tries)) : Good(c)
Mine ==
    CASE Focus = "C31" -> E.e = "settle"
      [] Focus = "C27" -> \/ E.e = "settle"
                          \/ E.e = "send" /\ ~((\A t \in Elems(E.tries) : Clean(t)) /\ Reached(Last(E.tries)))
                          \/ E.e = "ask" /\ ~(\A c \in Elems(Last(E.tries)) : c.asked = <<<<c.to, E.i>>>>)
      [] Focus = "C28" -> E.e = "ask"
      [] Focus = "C32" -> \/ E.e = "settle"
                          \/ E.e = "send" /\ ~((\A t \in Elems(E.tries) : Only(t)) /\ Reached(Last(E.tries)) /\ Told(Last(E.tries)))
      [] OTHER -> FALSE
TOp == /\ ~skip /\ More /\ E.e \in {"settle", "send", "ask"} /\ l' = l + 1 /\ Same
       /\ IF Fine THEN skip' = FALSE ELSE ~Mine /\ skip' = TRUE /\ Unjudged
TSkip == More /\ skip /\ E.e \notin {"reset", "crash"} /\ l' = l + 1 /\ Same /\ UNCHANGED skip /\ Unjudged
TNext == TReset \/ TNet \/ TStart \/ TKill \/ TOp \/ TSkip
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
