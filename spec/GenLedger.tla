------------------------------ MODULE GenLedger -------------------------------
(* Behaviours of Ledger as operation sequences for the replay harness.        *)
(* Exhaustive mode (MCLedger.cfg): every block of up to MaxTx transactions    *)
(* over an alphabet in which each way of succeeding and failing occurs, after *)
(* every reachable world; checks the listed properties on the way.            *)
(* Random mode (GenLedger.cfg, -simulate): long chains with forks, random     *)
(* genesis, fees, prices, coinbases.                                          *)
EXTENDS Ledger, Json

CONSTANTS MaxTx, MaxBlocks, Mode

VARIABLES ops, cur, done
gvars == <<hist, avail, blk, ops, cur, done>>
view == <<hist, blk, cur, Len(ops)>>

Users == {"u1", "u2", "u3", "u4"}
Addrs == Users \cup {"c1"}
Sys == [code |-> "sys", name |-> "Muta", symbol |-> "MTA", supply |-> "1000"]

NextTok(w) == IF \E t \in DOMAIN hist : hist[t] = w THEN CHOOSE t \in DOMAIN hist : hist[t] = w
              ELSE "r" \o ToString(Cardinality(DOMAIN hist) + 1)

Transfer(f, t, s, v, l, fa) == [k |-> "transfer", from |-> f, to |-> t, asset |-> s, amt |-> v,
                                limit |-> l, feeAsset |-> fa, code |-> "", kind |-> ""]
Deploy(f, c, kind, l, fa) == [k |-> "deploy", from |-> f, to |-> "", asset |-> "", amt |-> Zero,
                              limit |-> l, feeAsset |-> fa, code |-> c, kind |-> kind]
Other(k, f, fa) == [k |-> k, from |-> f, to |-> "c1", asset |-> "sys#0", amt |-> <<1, 0, 0>>,
                    limit |-> -1, feeAsset |-> fa, code |-> "", kind |-> ""]

(* ---- exhaustive mode ---- *)
SmallGenesis == { <<Sys, << <<"u1", << <<"sys#0", <<3, 0, 0>>>>, <<"k1#1", <<2, 0, 0>>>> >> >>,
                            <<"u2", << <<"sys#0", <<0, 0, 0>>>> >> >>,
                            <<"c1", <<>> >> >> >> }
SmallTx == { Transfer("u1", "u2", "sys#0", <<1, 0, 0>>, 210, "sys#0"),
             Transfer("u1", "u2", "sys#0", <<3, 0, 0>>, -1, "sys#0"),
             Transfer("u2", "u1", "sys#0", <<1, 0, 0>>, 300, "sys#0"),
             Transfer("u1", "u1", "sys#0", <<2, 0, 0>>, 210, "fee"),
             Transfer("u1", "u3", "sys#0", <<1, 0, 0>>, 209, "sys#0"),
             Transfer("u3", "u1", "sys#0", <<0, 0, 0>>, 210, "sys#0"),
             Transfer("u1", "u2", "k1#1", <<1, 0, 0>>, 210, "sys#0"),
             Transfer("u2", "u3", "sys#0", <<0, 0, 0>>, 210, "sys#0"),
             Deploy("u1", "k1", "asset", 2100, "sys#0"),
             Deploy("u2", "k1", "asset", -1, "fee"),
             Deploy("u1", "k1", "asset", 2099, "sys#0"),
             Deploy("u1", "k1", "app", -1, "sys#0"),
             Other("call", "u2", "sys#0") }
SmallBlocks == { <<<<0, 1>>, "u2">>, <<<<1, 3>>, "u4">> }

(* ---- random mode ---- (the parameter z keeps TLC from evaluating these once and for all) *)
Pick(seq) == seq[RandomElement(1..Len(seq))]
RAmt(z) == Pick(<< <<0,0,0>>, <<1,0,0>>, <<1,0,0>>, <<2,0,0>>, <<3,0,0>>, <<5,0,0>>, <<0,0,1>>, <<1,0,1>>,
                <<0,1,0>>, <<2,0,-1>>, <<0,0,210>>, <<7,0,0>> >>)
RAsset(z) == Pick(<<"sys#0", "sys#0", "sys#0", "k1#0", "k1#1", "k2#0", "k1#2", "ghost">>)
RLimit(z) == Pick(<<-1, -1, -1, 0, 209, 210, 211, 2099, 2100, 2101, 5000>>)
RUser(z) == Pick(<<"u1", "u2", "u3", "u1", "u2", "u4">>)
RAddr(z) == Pick(<<"u1", "u2", "u3", "u4">>)
RFee(z) == Pick(<<"sys#0", "sys#0", "fee", "k1#0">>)
RHolding(z) == << <<RAsset(z), RAmt(z)>>, <<RAsset(z), RAmt(z)>>, <<"sys#0", RAmt(z)>> >>
RAlloc(z) == << <<Pick(<<"u1", "u1", "u2">>), RHolding(z)>>, <<Pick(<<"u2", "u1", "c1">>), RHolding(z)>>,
             <<Pick(<<"u3", "u1", "c1", "u2">>), SubSeq(RHolding(z), 1, RandomElement(0..3))>> >>
RGenesis(z) == <<[code |-> Pick(<<"sys", "sys", "sys", "k1">>), name |-> Pick(<<"Muta", "", "x y">>),
               symbol |-> Pick(<<"MTA", "">>), supply |-> Pick(<<"0", "21", "18446744073709551615">>)],
              SubSeq(RAlloc(z), 1, Pick(<<3, 3, 3, 3, 2, 1, 0>>))>>
RTx(z) == Pick(<< Transfer(RUser(z), RAddr(z), RAsset(z), RAmt(z), RLimit(z), RFee(z)),
               Transfer(RUser(z), RAddr(z), "sys#0", RAmt(z), -1, RFee(z)),
               Transfer(RUser(z), RAddr(z), "sys#0", RAmt(z), 5000, "sys#0"),
               Transfer(RUser(z), RAddr(z), RAsset(z), RAmt(z), -1, "sys#0"),
               Deploy(RUser(z), Pick(<<"k1", "k1", "k2", "">>), "asset", RLimit(z), RFee(z)),
               Deploy(RUser(z), Pick(<<"k1", "sys">>), Pick(<<"asset", "asset", "app", "library", "native">>), -1, RFee(z)),
               Other(Pick(<<"call", "callnone", "approve">>), RUser(z), RFee(z)) >>)
RPrice(z) == Pick(<< <<0, 0>>, <<0, 1>>, <<0, 1>>, <<0, 7>>, <<1, 0>>, <<3, 2>> >>)
RCb(z) == Pick(<<"u1", "u4", "u5", "u2", "c1">>)

GenesisChoices(z) == IF Mode = "small" THEN SmallGenesis ELSE {RGenesis(z)}
TxChoices(z) == IF Mode = "small" THEN SmallTx ELSE {RTx(z)}
BlockChoices(z) == IF Mode = "small" THEN SmallBlocks ELSE {<<RPrice(z), RCb(z)>>}
RootChoices == IF Mode = "small" THEN avail
               ELSE {Pick(<<"r" \o ToString(Cardinality(DOMAIN hist)), "r" \o ToString(Cardinality(DOMAIN hist)),
                            RandomElement(avail)>>)}
TxCount(z) == IF Mode = "small" THEN 0..MaxTx ELSE {RandomElement(0..MaxTx)}

GInit == Init /\ ops = <<>> /\ cur = [left |-> 0, txs |-> <<>>] /\ done = FALSE

GGenesis == /\ ops = <<>>
            /\ \E g \in GenesisChoices(ops) :
                 /\ Genesis(g[1], g[2], NextTok(GenesisWorld(g[1], g[2])))
                 /\ ops' = <<[op |-> "genesis", token |-> g[1], alloc |-> g[2]]>>
            /\ UNCHANGED <<cur, done>>
GBegin == /\ ops # <<>> /\ Len(ops) <= MaxBlocks
          /\ \E b \in BlockChoices(ops), t \in RootChoices, n \in TxCount(ops) :
               /\ Begin(t, Len(ops), b[1], b[2])
               /\ cur' = [left |-> n, txs |-> <<>>]
          /\ UNCHANGED <<ops, done>>
GTx == /\ cur.left > 0
       /\ \E tx \in TxChoices(ops) : Tx(tx) /\ cur' = [left |-> cur.left - 1, txs |-> Append(cur.txs, tx)]
       /\ UNCHANGED <<ops, done>>
GEnd == /\ blk.open /\ cur.left = 0
        /\ End(NextTok(EndWorld))
        /\ ops' = Append(ops, [op |-> "exec", root |-> blk.parent, height |-> blk.height, price |-> blk.price,
                               cb |-> blk.cb, txs |-> cur.txs])
        /\ cur' = [left |-> 0, txs |-> <<>>]
        /\ UNCHANGED done
GDone == /\ Mode # "small" /\ Len(ops) = MaxBlocks + 1 /\ ~done
         /\ PrintT("BEH " \o ToJson(ops))
         /\ done' = TRUE /\ UNCHANGED <<hist, avail, blk, ops, cur>>
GNext == GGenesis \/ GBegin \/ GTx \/ GEnd \/ GDone

(* every transition that finishes a block is one behaviour of the exhaustive mode *)
PrintBlocks == (blk.open /\ ~blk'.open) => PrintT("BEH " \o ToJson(ops'))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
