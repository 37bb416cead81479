--------------------------------- MODULE Pool ----------------------------------
(* The transaction pool of a node: what is admitted, packaged, flushed and     *)
(* fetched, what a peer may supply, and what is announced to the network.      *)
(*                                                                             *)
(* A transaction is a number n into conf.txs, the table of raw transactions    *)
(* [cycle, timeout, chain]; what arrives is [n, claims, sig]: the content of   *)
(* n, under the hash of `claims`, signed as `sig` says.                        *)
(* Every operation is given as the set of states it may lead to, so that two   *)
(* operations that overlap can be required to look like one after the other.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES conf, s   \* conf: [cap, gap, bs, txs]; s: the state, a record (below)

(* h: the latest height, st: what is committed, pool: <<[n, prop]>> in order of *)
(* arrival (prop: learnt from a proposal), cb: supplied by peers for a         *)
(* proposal's order, ann: admitted from users and not announced yet            *)
Start(h) == [h |-> h, st |-> {}, pool |-> <<>>, cb |-> {}, ann |-> <<>>]

Rng(q) == {q[i] : i \in DOMAIN q}
Ids(x) == {x.pool[i].n : i \in DOMAIN x.pool}
Avail(x) == Ids(x) \cup x.cb
InTime(n, h) == conf.txs[n].timeout > h /\ conf.txs[n].timeout <= h + conf.gap
Sound(t, x) == t.claims = t.n /\ t.sig = "ok" /\ conf.txs[t.n].chain /\ InTime(t.n, x.h) /\ t.n \notin x.st

(* ---- admission ---- *)
Admits(t, x, fault) == ~fault /\ Sound(t, x) /\ t.n \notin Ids(x) /\ Len(x.pool) < conf.cap
Put(x, t, user) == [x EXCEPT !.pool = Append(@, [n |-> t.n, prop |-> FALSE]), !.ann = IF user THEN Append(@, t.n) ELSE @]
Insert(x, t, user, fault) == IF Admits(t, x, fault) THEN Put(x, t, user) ELSE x
RECURSIVE InsertAll(_, _)
InsertAll(x, ts) == IF ts = <<>> THEN x ELSE InsertAll(Insert(x, ts[1], FALSE, FALSE), Tail(ts))
Orders(ts) == {[i \in DOMAIN ts |-> ts[p[i]]] : p \in Permutations(DOMAIN ts)}

(* ---- packaging ---- *)
Cyc(n) == conf.txs[n].cycle
Live(x) == LET T(e) == InTime(e.n, x.h) IN SelectSeq(x.pool, T)
RECURSIVE Take(_, _, _)
(* how many from the front fit together *)
Take(q, k, room) == IF k > Len(q) \/ (k <= Len(q) /\ Cyc(q[k].n) > room) THEN k - 1 ELSE Take(q, k + 1, room - Cyc(q[k].n))
Order(x, limit) == LET F(e) == Cyc(e.n) <= limit  q == SelectSeq(Live(x), F) IN SubSeq(q, 1, Take(q, 1, limit))
Propose(x, limit) ==
    LET F(e) == Cyc(e.n) <= limit
        q == SelectSeq(Live(x), F)
        k == Take(q, 1, limit)
        G(e) == ~e.prop
        r == SelectSeq(SubSeq(q, k + 1, Len(q)), G)
    IN  SubSeq(r, 1, Take(r, 1, limit))
Names(q) == [i \in DOMAIN q |-> q[i].n]
Packaged(x) == [x EXCEPT !.pool = Live(x)]

(* ---- commits ---- *)
Flush(x, S) == LET K(e) == e.n \notin S IN [x EXCEPT !.pool = SelectSeq(@, K), !.cb = {}]
Store(x, S) == [x EXCEPT !.st = @ \cup S, !.h = @ + 1]

(* ---- what peers supply ---- *)
Unknown(x, hs) == LET U(n) == n \notin Ids(x) IN SelectSeq(hs, U)
Supplied(x, hs, resp, fault) == {n \in Rng(Unknown(x, hs)) : ~fault /\ \E i \in DOMAIN resp : resp[i].claims = n /\ Sound(resp[i], x)}
(* must succeed, must fail *)
EnsureMust(x, hs, resp, bad, fault) ==
    Unknown(x, hs) = <<>> \/ (~bad /\ ~fault /\ Len(resp) = Len(Unknown(x, hs)) /\ {resp[i].claims : i \in DOMAIN resp} = Rng(Unknown(x, hs))
                              /\ \A i \in DOMAIN resp : Sound(resp[i], x))
EnsureMay(x, hs, resp, bad, fault) == Unknown(x, hs) = <<>> \/ (~bad /\ Supplied(x, hs, resp, fault) = Rng(Unknown(x, hs)))
(* what the other node's proposal says is not in any block yet is pooled, in the order supplied *)
RECURSIVE SyncAll(_, _, _)
SyncAll(x, U, resp) ==
    IF resp = <<>> THEN {x}
    ELSE LET t == resp[1]
             rest == Tail(resp)
             y == [x EXCEPT !.pool = Append(@, [n |-> t.n, prop |-> TRUE])]
         IN IF t.claims \notin U \/ ~Sound(t, x) \/ t.n \in Ids(x) THEN SyncAll(x, U, rest)
            ELSE IF Len(x.pool) < conf.cap THEN SyncAll(y, U, rest) ELSE SyncAll(y, U, rest) \cup SyncAll(x, U, rest)
=============================================================================
