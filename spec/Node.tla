--------------------------------- MODULE Node ---------------------------------
(* A network of whole nodes: the shipped program with one genesis and one      *)
(* configuration. Users hand transactions to any node; nodes propose, decide   *)
(* and commit blocks; nodes are killed at any time and start again. There is   *)
(* one chain, of which every node has a prefix.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS TransferCost, DeployCost
VARIABLES n, up,
          price, world0,  \* configuration and genesis
          ht,             \* node -> the heights its store may have
          chain,          \* <<[by, txs]>>, decided blocks
          table,          \* transactions handed in and accepted somewhere: id -> transaction
          own,            \* running node -> ids it accepted itself, not yet in the chain
          heard           \* running node -> ids the others accepted while it was there, not yet in the chain
nvars == <<n, up, price, world0, ht, chain, table, own, heard>>

L == INSTANCE Ledger WITH hist <- <<>>, avail <- {}, blk <- <<>>
Nodes == 0..(n - 1)
Top == Len(chain)
User(u) == "u" \o ToString(u)
Host(i) == "n" \o ToString(i)
Token == "sys#0"
Coins(v) == <<0, 0, v>>
Genesis(alloc) == L!GenesisWorld([code |-> "sys", name |-> "", symbol |-> "", supply |-> ""],
                      SelectSeq([u \in DOMAIN alloc |-> <<User(u - 1), <<<<Token, Coins(alloc[u])>>>>>>],
                                LAMBDA a : a[2][1][2] # L!Zero))

(* what blocks do, from the ledger specification *)
Tx(id) == LET t == table[id] IN [k |-> "transfer", from |-> User(t.from), to |-> User(t.to), asset |-> Token,
                                 amt |-> Coins(t.amt), limit |-> t.limit, feeAsset |-> Token]
RECURSIVE Run(_, _, _, _)
Run(w, fees, q, by) ==
    IF q = <<>> THEN L!CreditAll(w, Host(by), fees)
    ELSE LET tx == Tx(Head(q))
             o == L!Outcome(w, tx)
         IN  Run(L!IncNonce(o.world, tx.from), L!AddFee(fees, Token, L!Mul(o.used, <<0, price>>)), Tail(q), by)
RECURSIVE After(_)
After(h) == IF h = 0 THEN world0 ELSE Run(After(h - 1), <<>>, chain[h].txs, chain[h].by)
(* the state a block is built on, which is the one its header names *)
Under(h) == IF h = 0 THEN world0 ELSE After(h - 1)
Balance(w, a) == L!Balance(w, a, Token)

InChain == UNION {{chain[h].txs[k] : k \in DOMAIN chain[h].txs} : h \in 1..Top}
Up2(f) == [i \in Nodes |-> f[i]]
Level == {i \in up : ht[i] = {Top}}
Behind == up \ Level
Knows(i) == own[i] \cup heard[i]

NInit == n = 0 /\ up = {} /\ price = 0 /\ world0 = <<>> /\ ht = <<>> /\ chain = <<>> /\ table = <<>> /\ own = <<>> /\ heard = <<>>
Net(k, p, alloc) == /\ n' = k /\ up' = {} /\ price' = p /\ world0' = Genesis(alloc) /\ chain' = <<>> /\ table' = <<>>
                    /\ ht' = [i \in 0..(k - 1) |-> {0}]
                    /\ own' = [i \in 0..(k - 1) |-> {}] /\ heard' = [i \in 0..(k - 1) |-> {}]
(* a node that starts has what it had committed, and no transactions *)
Start(i, h) == /\ i \in Nodes \ up /\ h \in ht[i] /\ up' = up \cup {i} /\ ht' = [ht EXCEPT ![i] = {h}]
               /\ UNCHANGED <<n, price, world0, chain, table, own, heard>>
(* what only the dead node may have known need not be heard of any more *)
Kill(i) == /\ i \in up /\ up' = up \ {i}
           /\ own' = [own EXCEPT ![i] = {}]
           /\ heard' = [j \in Nodes |-> IF j = i THEN {} ELSE heard[j] \ own[i]]
           /\ UNCHANGED <<n, price, world0, ht, chain, table>>
(* handing in: t.kind says whether it is a good transaction *)
Legal(t) == t.kind = "ok"
MustRefuse(i, t) == \/ ~Legal(t)
                    \/ t.id \in own[i]
                    \/ \E h \in 1..Top : (\A k \in ht[i] : h <= k) /\ \E k \in DOMAIN chain[h].txs : chain[h].txs[k] = t.id
MustTake(i, t) == Legal(t) /\ t.id \notin DOMAIN table
Take(i, t) == /\ i \in up
              /\ table' = [x \in DOMAIN table \cup {t.id} |-> IF x = t.id THEN t ELSE table[x]]
              /\ own' = [own EXCEPT ![i] = IF t.id \in InChain THEN @ ELSE @ \cup {t.id}]
              /\ heard' = [j \in Nodes |-> IF j \in up \ {i} /\ t.id \notin InChain THEN heard[j] \cup {t.id} ELSE heard[j]]
              /\ UNCHANGED <<n, up, price, world0, ht, chain>>
(* a block: of transactions somebody accepted, each once; it has what the proposer accepted itself *)
Distinct(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j
Fits(by, q) == LET S == {q[k] : k \in DOMAIN q} IN Distinct(q) /\ S \subseteq DOMAIN table \ InChain /\ own[by] \subseteq S
(* then(i): the heights a node may have afterwards *)
Block(by, q, then) == /\ by \in Level /\ Fits(by, q)
                      /\ chain' = Append(chain, [by |-> by, txs |-> q])
                      /\ ht' = then
                      /\ LET S == {q[k] : k \in DOMAIN q}
                         IN  own' = [i \in Nodes |-> own[i] \ S] /\ heard' = [i \in Nodes |-> heard[i] \ S]
                      /\ UNCHANGED <<n, up, price, world0, table>>
-----------------------------------------------------------------------------
(* promises *)
HasPrefix == \A i \in DOMAIN ht : \A h \in ht[i] : h <= Top
Once == Top > 0 => Cardinality(InChain) = LET R[h \in 0..Top] == IF h = 0 THEN 0 ELSE R[h - 1] + Len(chain[h].txs) IN R[Top]
Sum(w, S) == LET R[T \in SUBSET S] == IF T = {} THEN 0 ELSE LET a == CHOOSE a \in T : TRUE IN R[T \ {a}] + Balance(w, a)[3] IN R[S]
Conserved == n > 0 => LET S == {User(u) : u \in 0..2} IN Sum(After(Top), S) = Sum(world0, S)
NoneLost == \A i \in DOMAIN own : own[i] \cap InChain = {}
Grows == [][Len(chain') >= Len(chain) => SubSeq(chain', 1, Len(chain)) = chain]_nvars
=============================================================================
