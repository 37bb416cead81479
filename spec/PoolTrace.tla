------------------------------- MODULE PoolTrace ------------------------------
(* Recorded runs of the real pool, with its default adapter on the real store, *)
(* against Pool. FOCUS: C17 admission, C18 packages, C19 flush and fetch, C20  *)
(* what peers supply for a proposal, C21 announcements.                        *)
EXTENDS Pool, TraceLib
VARIABLE skip
tvars == <<conf, s, skip, l>>

TInit == l = 1 /\ skip = FALSE /\ conf = [cap |-> 0, gap |-> 0, bs |-> 0, txs |-> <<>>] /\ s = {Start(0)}
TReset == Is("reset") /\ skip' = FALSE /\ s' = {Start(0)} /\ conf' = [cap |-> 0, gap |-> 0, bs |-> 0, txs |-> <<>>]
TConf == ~skip /\ Is("conf") /\ conf' = [cap |-> E.cap, gap |-> E.gap, bs |-> E.bs, txs |-> E.txs] /\ s' = {Start(E.h)} /\ skip' = FALSE

Ok(o) == o.res = "ok"
Big == 1000000
(* the states operation o may lead to from x, given what it returned; the kinds  *)
(* of operation in K are not judged but taken as they went                       *)
After(x, o, K) ==
    CASE o.op = "insert" /\ "insert" \in K -> IF o.t.n \in Ids(x) THEN {x} ELSE {x, Put(x, o.t, o.via = "user")}
      [] o.op = "insert" -> IF Admits(o.t, x, o.fault) = Ok(o) THEN {Insert(x, o.t, o.via = "user", o.fault)} ELSE {}
      [] o.op = "churn" ->
           (* over and over in and out again, with something else left alone *)
           LET t == [n |-> o.n, claims |-> o.n, sig |-> "ok"] IN
           IF Admits(t, x, FALSE) = Ok(o) THEN {IF Ok(o) THEN Flush(x, {o.n}) ELSE x} ELSE {}
      [] o.op = "batch" -> {InsertAll(x, q) : q \in Orders(o.txs)}
      [] o.op = "package" /\ "package" \in K -> {IF Ok(o) THEN Packaged(x) ELSE x}
      [] o.op = "package" ->
           IF o.fault THEN IF Ok(o) THEN {} ELSE {x}
           ELSE IF Ok(o) /\ o.order = Names(Order(x, o.limit)) /\ o.propose = Names(Propose(x, o.limit)) THEN {Packaged(x)} ELSE {}
      [] o.op = "flush" -> IF Ok(o) THEN {Flush(x, Elems(o.hs))} ELSE {}
      [] o.op = "store" -> {Store(x, Elems(o.hs))}
      [] o.op = "commit" -> IF Ok(o) THEN {Flush(Store(x, Elems(o.hs)), Elems(o.hs))} ELSE {}
      [] o.op \in {"get", "pull"} ->
           IF Elems(o.hs) \subseteq Avail(x) THEN IF Ok(o) /\ o.got = o.hs THEN {x} ELSE {}
           ELSE IF Ok(o) THEN {} ELSE {x}
      [] o.op = "ensure" ->
           IF Ok(o) THEN IF EnsureMay(x, o.hs, o.resp, o.bad, o.fault) THEN {[x EXCEPT !.cb = @ \cup Rng(Unknown(x, o.hs))]} ELSE {}
           ELSE IF EnsureMust(x, o.hs, o.resp, o.bad, o.fault) THEN {}
                ELSE {[x EXCEPT !.cb = @ \cup S] : S \in SUBSET Supplied(x, o.hs, IF o.bad THEN <<>> ELSE o.resp, o.fault)}
      [] o.op = "sync" ->
           IF o.bad \/ o.fault \/ Unknown(x, o.hs) = <<>> THEN {x} ELSE SyncAll(x, Rng(Unknown(x, o.hs)), o.resp)
      [] o.op = "tick" -> {x}
Both(x, a, b, K) == UNION {After(y, b, K) : y \in After(x, a, K)}
(* two insertions may both find room for one *)
Twice(x, a, b) ==
    IF a.op = "insert" /\ b.op = "insert" /\ Ok(a) /\ Ok(b) /\ a.t.n # b.t.n /\ Admits(a.t, x, FALSE) /\ Admits(b.t, x, FALSE)
    THEN {Put(Put(x, b.t, b.via = "user"), a.t, a.via = "user"), Put(Put(x, a.t, a.via = "user"), b.t, b.via = "user")} ELSE {}
Outcomes(x, e, K) ==
    IF e.op = "nest" THEN Both(x, e.outer, e.inner, K) \cup Both(x, e.inner, e.outer, K) \cup Twice(x, e.outer, e.inner)
    ELSE After(x, e, K)
Seen(x) == Avail(x) = Elems(E.has)
(* what was announced is the front of what waits for it; nothing waits any longer after an interval *)
Count(q, n) == Cardinality({i \in DOMAIN q : q[i] = n})
SameBag(p, q) == \A n \in Rng(p) \cup Rng(q) : Count(p, n) = Count(q, n)
Told(x) == /\ Len(E.ann) <= Len(x.ann) /\ SameBag(E.ann, SubSeq(x.ann, 1, Len(E.ann)))
           /\ E.op = "tick" => Len(E.ann) = Len(x.ann)
Drop(x) == IF Len(E.ann) <= Len(x.ann) THEN [x EXCEPT !.ann = SubSeq(@, Len(E.ann) + 1, Len(@))] ELSE [x EXCEPT !.ann = <<>>]

Ops == {"insert", "batch", "package", "flush", "store", "commit", "get", "pull", "ensure", "sync", "tick", "churn", "nest"}
Kinds == IF E.op = "nest" THEN {E.outer.op, E.inner.op} ELSE {E.op}
Fits(K) == {x \in UNION {Outcomes(y, E, K) : y \in s} : Seen(x)}
(* does a step that no state of the specification explains break the property in focus? *)
Mine ==
    CASE Focus = "C17" -> \/ E.op \in {"insert", "batch", "sync", "churn"}
                          \/ E.op = "nest" /\ Kinds \subseteq {"insert", "commit", "store"}
      [] Focus = "C18" -> "package" \in Kinds /\ Fits({"insert"}) = {}
      [] Focus = "C19" -> \/ E.op \in {"flush", "store", "commit", "get", "pull"}
                          \/ E.op = "nest" /\ Kinds \cap {"flush", "commit"} # {} /\ Fits({"insert", "package"}) = {}
                          \/ E.op = "package" /\ ~\E x \in s : (~Ok(E) \/ Elems(E.order) \cup Elems(E.propose) \subseteq Ids(x)) /\ (Seen(Packaged(x)) \/ (~Ok(E) /\ Seen(x)))
      [] Focus = "C20" -> E.op = "ensure"
      [] OTHER -> FALSE
(* s holds every state that what was seen so far allows *)
Good == Fits({})
TOp ==
    /\ ~skip /\ More /\ E.e \in Ops /\ l' = l + 1 /\ UNCHANGED conf
    /\ IF Good # {}
       THEN LET G == {x \in Good : Focus = "C21" => Told(x)} IN
            E.panics = 0 /\ G # {} /\ s' = {Drop(x) : x \in G} /\ skip' = FALSE
       ELSE ~Mine /\ s' = s /\ skip' = TRUE /\ Unjudged
TSkip == More /\ skip /\ E.e \notin {"reset", "crash"} /\ l' = l + 1 /\ UNCHANGED <<conf, s, skip>> /\ Unjudged
TNext == TReset \/ TConf \/ TOp \/ TSkip
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
