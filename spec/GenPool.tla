-------------------------------- MODULE GenPool --------------------------------
EXTENDS Pool, Json
CONSTANTS Mode, MaxOps
VARIABLES ops, done
gvars == <<conf, s, ops, done>>

Raw(c, t, ok) == [cycle |-> c, timeout |-> t, chain |-> ok]
Tx(n) == [n |-> n, claims |-> n, sig |-> "ok"]
OpConf(c, h) == [op |-> "conf", cap |-> c.cap, gap |-> c.gap, bs |-> c.bs, mute |-> c.mute, txs |-> c.txs, h |-> h]
OpInsert(t, via, f) == [op |-> "insert", t |-> t, via |-> via, fault |-> f]
OpBatch(ts) == [op |-> "batch", txs |-> ts]
OpPackage(limit, f) == [op |-> "package", limit |-> limit, fault |-> f]
OpHs(o, hs) == [op |-> o, hs |-> hs]
OpPeer(o, hs, resp, bad, f) == [op |-> o, hs |-> hs, resp |-> resp, bad |-> bad, fault |-> f]
OpChurn(n) == [op |-> "churn", n |-> n, times |-> 4 * conf.cap + 2]
OpTick == [op |-> "tick"]
OpNest(a, at, k, b) == [op |-> "nest", outer |-> a, at |-> at, k |-> k, inner |-> b]
(* where it ends when everything is done by the book *)
RECURSIVE Do(_, _)
Do(x, o) ==
    CASE o.op = "insert" -> Insert(x, o.t, o.via = "user", o.fault)
      [] o.op = "batch" -> InsertAll(x, o.txs)
      [] o.op = "package" -> IF o.fault THEN x ELSE Packaged(x)
      [] o.op = "churn" -> IF Admits(Tx(o.n), x, FALSE) THEN Flush(x, {o.n}) ELSE x
      [] o.op = "flush" -> Flush(x, Rng(o.hs))
      [] o.op = "store" -> Store(x, Rng(o.hs))
      [] o.op = "commit" -> Flush(Store(x, Rng(o.hs)), Rng(o.hs))
      [] o.op = "ensure" -> IF EnsureMust(x, o.hs, o.resp, o.bad, o.fault) THEN [x EXCEPT !.cb = @ \cup Rng(Unknown(x, o.hs))] ELSE x
      [] o.op = "sync" -> IF o.bad \/ o.fault THEN x ELSE CHOOSE y \in SyncAll(x, Rng(Unknown(x, o.hs)), o.resp) : TRUE
      [] o.op = "nest" -> Do(Do(x, o.outer), o.inner)
      [] OTHER -> x
Emit(o) == ops' = Append(ops, o) /\ s' = Do(s, o) /\ UNCHANGED conf

GInit == conf = [cap |-> 0, gap |-> 0, bs |-> 0, txs |-> <<>>] /\ s = Start(0) /\ ops = <<>> /\ done = FALSE
(* ---- exhaustive ---- *)
StdTxs == <<Raw(3, 12, TRUE), Raw(3, 15, TRUE), Raw(5, 13, TRUE), Raw(20, 15, TRUE), Raw(1, 10, TRUE), Raw(1, 16, TRUE), Raw(1, 12, FALSE)>>
Std(cap) == [cap |-> cap, gap |-> 5, bs |-> 2, mute |-> cap = 4, txs |-> StdTxs]
SetUp(c) == ops = <<>> /\ conf' = c /\ s' = Start(10) /\ ops' = <<OpConf(c, 10)>>
Bad == [n |-> 2, claims |-> 2, sig |-> "other"]
False1 == [n |-> 3, claims |-> 1, sig |-> "ok"]
Alphabet ==
    {OpInsert(Tx(n), "user", FALSE) : n \in 1..4} \cup {OpInsert(Bad, "user", FALSE), OpInsert(False1, "net", FALSE), OpInsert(Tx(3), "net", FALSE)}
    \cup {OpPackage(6, FALSE), OpPackage(8, FALSE), OpHs("flush", <<1>>), OpHs("commit", <<2, 3>>), OpHs("store", <<1>>)}
    \cup {OpPeer("ensure", <<2, 1>>, <<Tx(1)>>, FALSE, FALSE), OpPeer("ensure", <<1, 3>>, <<Tx(3), Tx(1)>>, FALSE, FALSE),
          OpPeer("ensure", <<1, 2>>, <<Tx(1), Bad>>, FALSE, FALSE), OpPeer("sync", <<3, 2>>, <<Tx(3), Tx(2)>>, FALSE, FALSE), OpTick}
Edge == {OpInsert(Tx(n), "user", FALSE) : n \in 5..7} \cup {OpInsert(Tx(1), "user", TRUE), OpPackage(6, TRUE), OpHs("get", <<2, 1>>), OpHs("pull", <<1, 2>>),
         OpPeer("ensure", <<1, 2>>, <<Tx(2), Tx(2)>>, FALSE, FALSE), OpPeer("ensure", <<1, 3>>, <<Tx(3), False1>>, FALSE, FALSE),
         OpPeer("ensure", <<1>>, <<>>, TRUE, FALSE), OpPeer("ensure", <<1>>, <<Tx(1)>>, FALSE, TRUE), OpPeer("sync", <<1, 2>>, <<Bad, Tx(3), False1>>, FALSE, FALSE),
         OpPeer("sync", <<5, 1>>, <<Tx(5), Tx(1)>>, FALSE, FALSE), OpBatch(<<Tx(1), Bad, Tx(2)>>), OpBatch(<<Tx(3), Tx(1), Tx(2)>>), OpChurn(1)}
SeqNext ==
    /\ Mode = "seq" /\ UNCHANGED done
    /\ \/ SetUp(Std(2))
       \/ Len(ops) \in 1..(MaxOps - 1) /\ \E o \in Alphabet : Emit(o)
       \/ Len(ops) = MaxOps /\ \E o \in Alphabet \cup Edge : Emit(o)
(* one operation in the middle of another, then everything is looked at *)
Inners == {OpInsert(Tx(n), "user", FALSE) : n \in 1..3} \cup {OpHs("flush", <<n>>) : n \in 1..3}
Outer(o) == CASE o.op = "insert" -> {"insert:checked", "insert:mapped"} [] o.op = "flush" -> {"flush:marked"}
              [] OTHER -> {"package:popped", "package:drained", "package:switched", "package:listed"}
NestNext ==
    /\ Mode = "nest" /\ UNCHANGED done
    /\ CASE Len(ops) = 0 -> \E cap \in {2, 4} : SetUp(Std(cap))
         [] Len(ops) = 1 -> Emit(OpInsert(Tx(1), "user", FALSE))
         [] Len(ops) = 2 -> \E o \in {OpInsert(Tx(2), "user", FALSE), OpHs("flush", <<1>>), OpHs("commit", <<>>), OpHs("commit", <<5>>), OpPackage(6, FALSE)} :
                                IF o = OpHs("commit", <<5>>) THEN Emit([o EXCEPT !.hs = <<2, 3>>]) ELSE Emit(o)
         [] Len(ops) = 3 ->
              \E a \in Inners \cup {OpPackage(6, FALSE)} : \E at \in Outer(a), k \in 1..2,
                 b \in Inners \cup (IF a.op = "package" THEN {} ELSE {OpPackage(6, FALSE)})
                              \cup (IF a.op = "insert" THEN {OpHs("commit", <<n>>) : n \in 1..3} ELSE {}) :
                 /\ k = 2 => at = "package:popped"
                 /\ Emit(OpNest(a, at, k, b))
         [] Len(ops) = 4 -> Emit(OpPackage(100, FALSE))
         [] Len(ops) = 5 -> Emit(OpInsert(Tx(3), "user", FALSE))
         [] Len(ops) = 6 -> Emit(OpPackage(100, FALSE))
         [] OTHER -> FALSE
Closed(o) == CASE Mode = "seq" -> Len(o) = MaxOps + 1 [] Mode = "nest" -> Len(o) = 7 [] OTHER -> FALSE
PrintAll == Closed(ops') => PrintT("BEH " \o ToJson(ops' \o IF Mode = "seq" THEN <<OpPackage(9, FALSE), OpTick>> ELSE <<OpTick>>))

(* what the specification promises *)
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Limits == {6, 8, 100}
Sane == /\ Distinct(Names(s.pool))
        /\ ops # <<>> => \A lim \in Limits :
            LET o == Names(Order(s, lim)) p == Names(Propose(s, lim))
                Sum(q) == LET RECURSIVE F(_) F(i) == IF i > Len(q) THEN 0 ELSE Cyc(q[i]) + F(i + 1) IN F(1) IN
            /\ Distinct(o \o p) /\ Rng(o \o p) \subseteq Ids(s) /\ Sum(o) <= lim /\ Sum(p) <= lim
            /\ \A n \in Rng(o \o p) : InTime(n, s.h)
            (* nothing stands in for an earlier one that would have fit in its place *)
            /\ \A i, j \in DOMAIN s.pool : i < j /\ s.pool[j].n \in Rng(o) /\ s.pool[i].n \notin Rng(o) /\ InTime(s.pool[i].n, s.h)
                   => Cyc(s.pool[i].n) > lim
(* a committed transaction is not admitted again *)
NotAgain == [][\A n \in s.st : n \notin Ids(s) => n \notin Ids(s')]_gvars

(* ---- random ---- *)
Pick(q) == q[RandomElement(1..Len(q))]
Big == 1000000
RCycle(z) == Pick(<<1, 2, 3, 5, 8, 13, 0, 1, 2, 3, 2 * Big, 2 * Big - 3>>)
RTime(z) == LET k == RandomElement(1..12) IN IF k = 1 THEN 2 * Big ELSE IF k = 2 THEN 0 ELSE 10 + RandomElement(-1..9)
RConf(z) == LET K == RandomElement(4..9) IN
            [cap |-> Pick(<<1, 2, 3, 5, 8>>), gap |-> Pick(<<2, 5, 8>>), bs |-> Pick(<<1, 2, 3, 200>>), mute |-> RandomElement(1..4) = 1,
             txs |-> [i \in 1..K |-> Raw(RCycle(i), RTime(i), RandomElement(1..15) # 1)]]
RN(z) == RandomElement(DOMAIN conf.txs)
RSig(z) == Pick(<<"ok", "ok", "ok", "ok", "ok", "ok", "ok", "other", "flip", "short", "empty", "nokey">>)
RTxOf(n) == [n |-> n, claims |-> IF RandomElement(1..15) = 1 THEN RN(1) ELSE n, sig |-> RSig(1)]
RTx(z) == RTxOf(RN(z))
Shuffle(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == RandomElement(T) IN <<x>> \o F(T \ {x}) IN F(S)
RHs(z) == LET p == RandomElement(1..3) IN Shuffle({n \in DOMAIN conf.txs : RandomElement(1..p + 1) = 1})
(* what a peer returns: mostly what it was asked for *)
RResp(u) == IF RandomElement(1..3) = 1 THEN [i \in 1..RandomElement(0..3) |-> RTx(i)]
            ELSE LET k == RandomElement(1..6)  q == [i \in DOMAIN u |-> IF k = 1 THEN RTxOf(u[i]) ELSE Tx(u[i])] IN IF k = 2 /\ u # <<>> THEN Tail(q) ELSE q
RLimit(z) == Pick(<<3, 5, 8, 13, 30, 0, 2 * Big, 2 * Big - 1>>)
RFault(z) == RandomElement(1..20) = 1
RandOp(c) ==
    CASE c = "insert" -> \E t \in {IF RandomElement(1..3) = 1 THEN RTx(0) ELSE Tx(RN(0))}, via \in {Pick(<<"user", "user", "net">>)}, f \in {RFault(0)} : Emit(OpInsert(t, via, f))
      [] c = "batch" -> \E k \in {RandomElement(0..3)} : \E ts \in {[i \in 1..k |-> RTx(i)]} : Emit(OpBatch(ts))
      [] c = "package" -> \E lim \in {RLimit(0)}, f \in {RFault(0)} : Emit(OpPackage(lim, f))
      [] c \in {"flush", "store", "commit", "get", "pull"} -> \E hs \in {RHs(0)} : Emit(OpHs(c, hs))
      [] c \in {"ensure", "sync"} -> \E hs \in {RHs(0)} : \E r \in {RResp(Unknown(s, hs))}, bad \in {RandomElement(1..10) = 1}, f \in {RFault(0)} : Emit(OpPeer(c, hs, r, bad, f))
      [] c = "nest" ->
            \E n, m \in {RN(0)}, which \in {RandomElement(1..6)} :
            \E a \in {CASE which \in {1, 2} -> OpInsert(Tx(n), "user", FALSE) [] which = 3 -> OpHs("flush", <<n>>) [] OTHER -> OpPackage(RLimit(0), FALSE)},
               m2 \in {RN(1)}, w2 \in {RandomElement(1..2)} :
            \E b \in {IF w2 = 1 THEN OpInsert(Tx(m2), "net", FALSE) ELSE IF a.op = "insert" /\ RandomElement(1..2) = 1 THEN OpHs("commit", <<m2>>) ELSE OpHs("flush", <<m2>>)} :
            \E at \in {RandomElement(Outer(a))}, k \in {RandomElement(1..3)} : Emit(OpNest(a, at, k, b))
      [] c = "churn" -> \E n \in {RN(0)} : Emit(OpChurn(n))
      [] OTHER -> Emit(OpTick)
RandNext ==
    /\ Mode = "random" /\ Len(ops) < MaxOps /\ UNCHANGED done
    /\ IF ops = <<>> THEN \E c \in {RConf(0)} : conf' = c /\ s' = Start(10) /\ ops' = <<OpConf(c, 10)>>
       ELSE \E c \in {Pick(<<"insert", "insert", "insert", "insert", "insert", "insert", "insert", "batch", "package", "package", "package", "flush", "store", "commit",
                             "get", "pull", "ensure", "ensure", "sync", "sync", "nest", "tick", "churn">>)} : RandOp(c)
GDone == Mode = "random" /\ Len(ops) = MaxOps /\ ~done /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<conf, s, ops>>
GNext == SeqNext \/ NestNext \/ RandNext \/ GDone
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
