------------------------------ MODULE NodeTrace -------------------------------
(* Recorded runs of whole nodes against Node.                                  *)
EXTENDS Node, TraceLib
tvars == <<nvars, l>>

TInit == l = 1 /\ NInit
TReset == Is("reset") /\ n' = 0 /\ up' = {} /\ price' = 0 /\ world0' = <<>> /\ ht' = <<>> /\ chain' = <<>>
          /\ table' = <<>> /\ own' = <<>> /\ heard' = <<>>
TNet == Is("net") /\ Net(E.n, E.price, E.alloc)
TStart == Is("start") /\ E.r = "ok" /\ Start(E.i, E.h)
(* killed while it started: nothing has changed *)
TStillborn == Is("stillborn") /\ E.i \in Nodes \ up /\ UNCHANGED nvars
TKill == Is("kill") /\ Kill(E.i)
(* everybody has everybody as bootstrap peer *)
TSettle == /\ Is("settle") /\ UNCHANGED nvars
           /\ {p \in up \X up : p[1] # p[2]} \subseteq {<<p[1], p[2]>> : p \in Elems(E.links)}
TSubmit == /\ Is("submit") /\ E.i \in up /\ E.r \in {"ok", "err"}
           /\ MustRefuse(E.i, E.tx) => E.r = "err"
           /\ MustTake(E.i, E.tx) => E.r = "ok"
           /\ IF E.r = "ok" THEN Take(E.i, E.tx) ELSE UNCHANGED nvars
(* heights seen: those that agreed have the block; the others are on the way *)
Seen(q, i) == LET p == CHOOSE p \in Elems(q) : p[1] = i IN p[2]
Lowest(i) == CHOOSE k \in ht[i] : \A m \in ht[i] : k <= m
Then2 == [i \in Nodes |-> IF i = E.victim THEN Lowest(i)..(Top + 1)
                          ELSE IF i \in up THEN Seen(E.heights, i)..(Top + 1) ELSE ht[i]]
TRound == /\ Is("round") /\ E.r = "ok" /\ E.h = Top + 1
          /\ {p[1] : p \in Elems(E.heights)} = up \ {E.victim}
          /\ Level \subseteq Elems(E.voters) /\ Elems(E.voters) \subseteq {i \in up : Top \in ht[i]}
          /\ \A i \in Elems(E.voters) \ {E.victim} : Seen(E.heights, i) = Top + 1
          /\ \A i \in up \ {E.victim} : Seen(E.heights, i) \in Lowest(i)..(Top + 1)
          /\ E.by \in Elems(E.voters) /\ Fits(E.by, E.txs)
          /\ chain' = Append(chain, [by |-> E.by, txs |-> E.txs])
          /\ ht' = Then2
          /\ up' = up \ {E.victim}
          /\ LET S == Elems(E.txs)
                 lost == IF E.victim \in up THEN own[E.victim] ELSE {}
             IN  /\ own' = [i \in Nodes |-> IF i = E.victim THEN {} ELSE own[i] \ S]
                 /\ heard' = [i \in Nodes |-> IF i = E.victim THEN {} ELSE heard[i] \ (S \cup lost)]
          /\ UNCHANGED <<n, price, world0, table>>
(* after enough blocks everybody is level and what the proposer has to know is in the chain *)
TDrained == Is("drained") /\ E.left = <<>> /\ Level = up /\ Knows(E.by) = {} /\ UNCHANGED nvars

(* what a node answers about its chain *)
Money(w, b) == /\ \A u \in Idx(b.users) : b.users[u] = Balance(w, User(u - 1))[3]
               /\ \A i \in Idx(b.nodes) : b.nodes[i] = Balance(w, Host(i - 1))[3]
View(v, worlds) ==
    /\ v.i \in up /\ v.top = Top /\ Len(v.blocks) = Top + 1
    /\ \A h \in 0..Top : LET b == v.blocks[h + 1]
                         IN  /\ b.h = h
                             /\ IF h = 0 THEN b.by = -1 /\ b.txs = <<>> ELSE b.by = chain[h].by /\ b.txs = chain[h].txs
                             /\ Money(worlds[h], b)
(* one header per height; the states they name differ when the balances do, and do not when nothing happened *)
One(views) == \A v, x \in Elems(views) : \A h \in 0..Top :
                  /\ v.blocks[h + 1].id = x.blocks[h + 1].id
                  /\ v.blocks[h + 1].root = x.blocks[h + 1].root
Money2(b) == <<b.users, b.nodes>>
Roots(v) == \A h, k \in 0..Top : LET b == v.blocks[h + 1]
                                     c == v.blocks[k + 1]
                                 IN  /\ Money2(b) # Money2(c) => b.root # c.root
                                     /\ (h < k /\ h > 0 /\ \A m \in h..(k - 1) : chain[m].txs = <<>>) => b.root = c.root
TLook == /\ Is("look") /\ UNCHANGED nvars /\ Level = up /\ {v.i : v \in Elems(E.views)} = up
         /\ LET worlds == [h \in 0..Top |-> Under(h)] IN \A v \in Elems(E.views) : View(v, worlds) /\ Roots(v)
         /\ One(E.views)
TNext == TReset \/ TNet \/ TStart \/ TStillborn \/ TKill \/ TSettle \/ TSubmit \/ TRound \/ TDrained \/ TLook
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
