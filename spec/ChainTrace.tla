------------------------------ MODULE ChainTrace ------------------------------
(* Recorded runs of the real engine, with its adapter, pool, executor and      *)
(* store, against Chain. FOCUS: C22 proposals, C23 commits, C24 failures and   *)
(* crashes, C25 catching up, C26 checks of proposals, C29 messages.            *)
(* s holds every state that what was seen so far allows.                       *)
EXTENDS Chain, TraceLib
VARIABLES s, skip, past
tvars == <<net, x, s, skip, past, l>>

Quiet == [Start EXCEPT !.sent = <<>>]
TInit == l = 1 /\ skip = FALSE /\ net = <<>> /\ s = {Quiet} /\ x = Quiet /\ past = {}
TReset == Is("reset") /\ skip' = FALSE /\ net' = <<>> /\ s' = {Quiet} /\ past' = {} /\ UNCHANGED x

Ok(o) == o.res = "ok"
N(k) == net[k + 1]
Stored(y) ==
    /\ E.view.h = y.h /\ E.view.top = N(y.h).hash
    /\ E.view.hashes = [i \in 1..(y.h + 1) |-> net[i].hash] /\ E.view.rroots = [i \in 1..(y.h + 1) |-> net[i].rroot]
    /\ Elems(E.view.st) = y.st /\ E.view.lp = N(y.lp).proof
Seen(y) == y.cast = E.cast /\ y.sent = E.sent /\ Stored(y) /\ Has(y) = Elems(E.has)

Header(hd, h, y) ==
    /\ hd.height = h /\ hd.prev = N(h - 1).hash /\ hd.chain /\ hd.me /\ hd.vals
    /\ hd.confirm = <<N(h - 1).oroot>> /\ hd.state = N(h - 1).root /\ hd.rroot = <<N(h - 1).rroot>>
    /\ hd.proof = N(h - 1).proof /\ hd.oroot = hd.merkle
    /\ Elems(hd.txs) = y.pool /\ Len(hd.txs) = Cardinality(y.pool)
Fault(o) == Field(o, "fault", 0)
Crash(o) == Field(o, "crash", FALSE)
Bad(o) == o.bad.at
(* what a failure of a write may leave *)
Broken(o, whole, stopped, died) ==
    IF Crash(o) THEN {Restart(y) : y \in whole \cup stopped \cup died}
    ELSE IF Ok(o) THEN whole ELSE stopped \cup whole
After(y, o) ==
    CASE o.op = "insert" -> IF Ok(o) = Inserts(y, o.n) THEN {Insert(y, o.n)} ELSE {}
      [] o.op = "propose" ->
           IF ~Proposes(y, o.h) THEN IF Ok(o) THEN {} ELSE {y}
           ELSE IF Ok(o) /\ Header(o.hd, o.h, y) /\ o.rest = <<>> /\ o.hashed THEN {[y EXCEPT !.own = [h |-> o.h, txs |-> o.hd.txs]]} ELSE {}
      [] o.op = "check" /\ o.var = "own" ->
           LET fit == y.own.h = o.base + 1 /\ Rng(y.own.txs) \subseteq Has(y) IN
           IF fit = Ok(o) /\ (Ok(o) => o.full = y.own.txs) THEN {y} ELSE {}
      [] o.op = "check" ->
           LET wrong == o.var # "ok"  txs == Elems(o.txs)  prop == Elems(o.prop)  supply == Elems(o.supply) IN
           IF Ok(o) THEN IF MayPass(y, o.base, wrong, txs, supply) /\ o.full = o.txs THEN {Passed(y, txs, prop, supply)} ELSE {}
           ELSE IF MustPass(y, o.base, wrong, txs, prop, supply) THEN {} ELSE Failed(y, txs, prop, supply)
      [] o.op = "commit" /\ Fault(o) = 0 ->
           IF Ok(o) THEN IF Commits(y, o.k) /\ o.next = o.k + 1 /\ o.vals THEN {Committed(y, o.k)} ELSE {}
           ELSE IF Commits(y, o.k) THEN {} ELSE Refused(y, o.k)
      [] o.op = "commit" ->
           LET whole == IF Commits(y, o.k) THEN {Committed(y, o.k)} ELSE {} IN
           IF Commits(y, o.k) THEN Broken(o, IF Ok(o) THEN whole ELSE {}, IF Ok(o) THEN {} ELSE Stopped(y, o.k), IF Ok(o) THEN {} ELSE Died(y, o.k))
           ELSE IF Ok(o) THEN {} ELSE Broken(o, {}, Refused(y, o.k), {})
      [] o.op = "announce" /\ o.n < 0 -> {y}
      [] o.op = "announce" /\ Fault(o) = 0 -> Synced(y, o.n, Bad(o))
      [] o.op = "announce" -> Broken(o, Synced(y, o.n, Bad(o)), SyncStopped(y, o.n, Bad(o)), SyncDied(y, o.n, Bad(o)))
      [] o.op = "restart" -> {Restart(y)}
      [] o.op = "authority" -> IF o.k > y.h \/ (Ok(o) /\ o.vals) THEN {y} ELSE {}
      [] o.op = "relay" ->
           IF o.spoil # "" THEN IF ~Ok(o) /\ o.got = 0 /\ o.signed THEN {y} ELSE {}
           ELSE IF Ok(o) /\ o.got = 1 /\ o.same /\ o.to /\ o.signed THEN {y} ELSE {}
      [] o.op = "decide" -> {y}
(* an announcement may be turned away while something else is at work; a commit waits *)
Aside(y, o) == o.op = "announce"
Outcomes(y) ==
    IF E.op = "nest"
    THEN UNION {After(z, E.inner) : z \in After(y, E.outer)} \cup UNION {After(z, E.outer) : z \in After(y, E.inner)}
         \cup (IF E.outer.op = "announce" /\ E.outer.n > 0 /\ Wants(y, E.outer.n)
               THEN UNION {UNION {Continue(z, E.outer.n, Bad(E.outer)) : z \in After(FetchTo(y, e), E.inner)} : e \in (y.h + 1)..(Min(E.outer.n - 2, Top))} ELSE {})
         \cup (IF Aside(y, E.inner) THEN After(y, E.outer) ELSE {})
    ELSE After(y, E)
Silent(y) == [y EXCEPT !.cast = <<>>, !.sent = <<>>]
Good == {y \in UNION {Outcomes(Silent(y)) : y \in s} : Seen(y)}

Kinds == IF E.op = "nest" THEN {E.outer.op, E.inner.op} ELSE {E.op}
Marks == (IF E.op = "restart" \/ Crash(E) THEN {"fault"} ELSE {}) \cup (IF Fault(E) # 0 THEN {"fault"} ELSE {})
         \cup (IF "announce" \in Kinds THEN {"sync"} ELSE {})
Mine ==
    CASE Focus = "C22" -> E.op = "propose"
      [] Focus = "C23" -> \/ "commit" \in Kinds /\ "announce" \notin Kinds /\ Marks = {}
                          \/ E.op \in {"propose", "check"} /\ past = {}
      [] Focus = "C24" -> \/ Marks \cap {"fault"} # {}
                          \/ "fault" \in past /\ E.op \in {"commit", "announce", "check"}
                          \/ "fault" \in past /\ "sync" \notin past /\ E.op = "propose"
      [] Focus = "C25" -> \/ "announce" \in Kinds
                          \/ "sync" \in past /\ E.op \in {"commit", "check"}
      [] Focus = "C26" -> E.op = "check"
      [] Focus = "C29" -> E.op \in {"relay", "authority"}
      [] OTHER -> FALSE
Ops == {"insert", "decide", "propose", "check", "commit", "announce", "restart", "authority", "relay", "nest"}
TConf == /\ ~skip /\ Is("conf") /\ net' = <<E.fact>> /\ s' = {Quiet} /\ UNCHANGED <<x, skip, past>>
         /\ Focus \in {"C23", "C24"} => E.sent = <<1>> /\ E.view.h = 0
TDecide == /\ ~skip /\ Is("decide") /\ net' = Append(net, E.fact) /\ UNCHANGED <<x, s, skip, past>>
TOp ==
    /\ ~skip /\ More /\ E.e \in Ops \ {"decide"} /\ l' = l + 1 /\ UNCHANGED <<net, x>> /\ past' = past \cup Marks
    /\ IF Good # {} /\ E.panics = 0 THEN s' = Good /\ skip' = FALSE
       ELSE ~Mine /\ s' = s /\ skip' = TRUE /\ Unjudged
TSkip == More /\ skip /\ E.e \notin {"reset", "crash"} /\ l' = l + 1 /\ UNCHANGED <<net, x, s, skip, past>> /\ Unjudged
TNext == TReset \/ TConf \/ TDecide \/ TOp \/ TSkip
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
