--------------------------------- MODULE Chain ---------------------------------
(* One node and the chain the network decides on: what the node proposes,      *)
(* accepts, commits, fetches from a peer that is ahead, and has after a        *)
(* failure or crash in the middle of these, and what it tells the others.      *)
(*                                                                             *)
(* net[k+1] is the block of height k as the network decided it; here only its  *)
(* transactions matter. Operations that can go more than one way, because      *)
(* something fails in the middle, are given as sets of states.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES net, x
(* x.h: height of the chain here; x.pf: height of the block whose proof the    *)
(* next proposal carries; x.lp: height of the block whose proof is stored;     *)
(* x.st: stored transactions; x.pool, x.cb: what the pool holds of its own and *)
(* for a proposal's order; x.own: own proposal, height and transactions;       *)
(* x.cast, x.sent: heights announced to peers and to the consensus process     *)
None == [h |-> 0, txs |-> <<>>]
Start == [h |-> 0, pf |-> 0, lp |-> 0, st |-> {}, pool |-> {}, cb |-> {}, own |-> None, cast |-> <<>>, sent |-> <<1>>]

Rng(q) == {q[i] : i \in DOMAIN q}
Top == Len(net) - 1
T(k) == Rng(net[k + 1].txs)
Decided(i, k) == UNION {T(j) : j \in i..k}
Min(a, b) == IF a < b THEN a ELSE b

(* ---- the pool, as far as the chain is concerned (spec/Pool.tla for the rest) ---- *)
Inserts(y, n) == n \notin y.pool /\ n \notin y.st
Insert(y, n) == IF Inserts(y, n) THEN [y EXCEPT !.pool = @ \cup {n}] ELSE y
Has(y) == y.pool \cup y.cb

(* ---- committing ---- *)
Extend(y, k) == [y EXCEPT !.h = k, !.st = @ \cup T(k), !.pool = @ \ T(k), !.cb = {}]
Commits(y, k) == k = y.h + 1 /\ k <= Top /\ T(k) \subseteq Has(y)
Committed(y, k) == [Extend(y, k) EXCEPT !.pf = k, !.lp = k, !.cast = Append(@, k + 1)]
(* refused before anything is executed; the proof may have been stored *)
Refused(y, k) == IF k = y.h + 1 /\ k <= Top THEN {y, [y EXCEPT !.lp = k]} ELSE {y}
(* stopped by a failure: nothing of the block is visible, but for transactions *)
Stopped(y, k) == {[y EXCEPT !.lp = p, !.st = @ \cup S] : p \in {y.lp, k}, S \in SUBSET T(k)}
(* a process that dies may leave the block behind in full *)
Died(y, k) == {[y EXCEPT !.h = k, !.st = @ \cup T(k), !.lp = p] : p \in {y.lp, k}}
Restart(y) == [y EXCEPT !.pool = {}, !.cb = {}, !.pf = y.lp, !.own = None, !.sent = Append(@, y.h + 1)]

(* ---- catching up with a peer which says it works on height n ---- *)
Wants(y, n) == n - 1 > y.h + 1
Fetched(y, k) == [Extend(y, k) EXCEPT !.pf = k - 1, !.lp = k - 1]
RECURSIVE FetchTo(_, _)
FetchTo(y, e) == IF y.h >= e THEN y ELSE FetchTo(Fetched(y, y.h + 1), e)
(* how far the peer can bring it: bad is the height at which the peer fails, 0 if it does not *)
Reach(y, n, bad) == Min(IF bad > y.h THEN bad - 1 ELSE n - 1, Min(n - 1, Top))
Continue(y, n, bad) ==
    LET e == Reach(y, n, bad) z == FetchTo(y, e) IN
    IF e = n - 1 THEN {[z EXCEPT !.sent = Append(@, n)]}
    ELSE {z, [z EXCEPT !.lp = e]}
Synced(y, n, bad) == IF Wants(y, n) THEN Continue(y, n, bad) ELSE {y}
(* stopped by a failure here *)
SyncStopped(y, n, bad) ==
    IF ~Wants(y, n) THEN {}
    ELSE UNION {LET z == FetchTo(y, e) IN {[z EXCEPT !.lp = p, !.st = @ \cup S] : p \in {z.lp, e}, S \in SUBSET T(e + 1)}
                : e \in y.h..(Reach(y, n, bad) - 1)}
SyncDied(y, n, bad) ==
    IF ~Wants(y, n) THEN {}
    ELSE UNION {LET z == FetchTo(y, e) IN {[z EXCEPT !.h = e + 1, !.st = @ \cup T(e + 1), !.lp = p] : p \in {z.lp, e}}
                : e \in y.h..(Reach(y, n, bad) - 1)}

(* ---- proposals ---- *)
Proposes(y, h) == h = y.h + 1
(* a received proposal on top of block base, with `wrong` saying whether something in it contradicts the chain *)
Sound(y, base, wrong) == base = y.h /\ ~wrong
Obtained(y, want, supply) == want \subseteq y.pool \cup (supply \ y.st)
MustPass(y, base, wrong, txs, prop, supply) == Sound(y, base, wrong) /\ Obtained(y, txs, supply) /\ Obtained(y, prop, supply)
MayPass(y, base, wrong, txs, supply) == Sound(y, base, wrong) /\ txs \subseteq Has(y) \cup supply
Passed(y, txs, prop, supply) ==
    LET p == y.pool \cup ((prop \cap supply) \ y.st) IN [y EXCEPT !.pool = p, !.cb = @ \cup (txs \ p)]
(* one that does not pass may still have brought transactions *)
Failed(y, txs, prop, supply) ==
    {[y EXCEPT !.pool = @ \cup P, !.cb = @ \cup C] :
        P \in SUBSET (((prop \cap supply) \ y.st) \ y.pool), C \in SUBSET (((txs \cap supply) \ y.st) \ y.cb)}

(* ---- what the specification promises ---- *)
(* the chain here is a part of the network's, in full *)
Follows == x.h <= Top /\ Decided(0, x.h) \subseteq x.st
(* nothing is committed twice: what is committed is no longer to be packaged *)
Clean == Decided(0, x.h) \cap Has(x) = {}
Proofs == x.pf <= x.h /\ x.pf >= x.h - 1 /\ x.lp \in (x.h - 1)..(x.h + 1)
=============================================================================
