------------------------------- MODULE GenChain -------------------------------
EXTENDS Chain, Json
CONSTANTS Mode, MaxOps, Txs
VARIABLES ops, done, plan, blind   \* blind: a failure was injected, what x says is a guess
gvars == <<net, x, ops, done, plan, blind>>

OpConf(n) == [op |-> "conf", n |-> n]
OpInsert(n) == [op |-> "insert", n |-> n]
OpDecide(txs) == [op |-> "decide", txs |-> txs, own |-> FALSE]
OpDecideOwn(txs) == [op |-> "decide", txs |-> txs, own |-> TRUE]
OpPropose(h) == [op |-> "propose", h |-> h]
OpCheck(v, base, txs, prop, supply) == [op |-> "check", var |-> v, base |-> base, txs |-> txs, prop |-> prop, supply |-> supply]
OpCommit(k) == [op |-> "commit", k |-> k]
OpCommitM(k) == [op |-> "commit", k |-> k, mute |-> TRUE]
OpCommitF(k, j, c) == [op |-> "commit", k |-> k, fault |-> j, crash |-> c]
OpAnnounce(n, at, how) == [op |-> "announce", n |-> n, bad |-> [at |-> at, how |-> how]]
OpAnnounceF(n, j, c) == [op |-> "announce", n |-> n, bad |-> [at |-> 0, how |-> ""], fault |-> j, crash |-> c]
OpRestart == [op |-> "restart"]
OpAuthority(k) == [op |-> "authority", k |-> k]
OpRelay(d, kind, n, spoil) == [op |-> "relay", dir |-> d, kind |-> kind, n |-> n, spoil |-> spoil]
OpNest(a, at, b) == [op |-> "nest", outer |-> a, at |-> at, inner |-> b]

Has2(o, f) == f \in DOMAIN o
Faulty(o) == Has2(o, "fault")
(* where it ends when nothing fails *)
RECURSIVE Do(_, _)
Do(y, o) ==
    CASE o.op = "insert" -> Insert(y, o.n)
      [] o.op = "propose" -> IF Proposes(y, o.h) THEN [y EXCEPT !.own = [h |-> o.h, txs |-> <<>>]] ELSE y
      [] o.op = "check" -> IF o.var = "ok" /\ MustPass(y, o.base, FALSE, Rng(o.txs), Rng(o.prop), Rng(o.supply))
                           THEN Passed(y, Rng(o.txs), Rng(o.prop), Rng(o.supply)) ELSE y
      [] o.op = "commit" /\ Faulty(o) -> IF o.crash THEN Restart(y) ELSE y
      [] o.op = "commit" -> IF Commits(y, o.k) THEN Committed(y, o.k) ELSE y
      [] o.op = "announce" /\ Faulty(o) -> IF o.crash THEN Restart(y) ELSE y
      [] o.op = "announce" -> IF o.n < 0 THEN y ELSE CHOOSE z \in Synced(y, o.n, o.bad.at) : \A w \in Synced(y, o.n, o.bad.at) : z.lp >= w.lp
      [] o.op = "restart" -> Restart(y)
      [] o.op = "nest" -> Do(Do(y, o.outer), o.inner)
      [] OTHER -> y
(* more than one way to end even when nothing fails *)
Vague(y, o) == \/ o.op = "announce" /\ Cardinality(Synced(y, o.n, o.bad.at)) > 1
               \/ o.op = "commit" /\ ~Commits(y, o.k) /\ Cardinality(Refused(y, o.k)) > 1
Emit(o) ==
    /\ ops' = Append(ops, o)
    /\ net' = IF o.op = "conf" THEN <<[txs |-> <<>>]>> ELSE IF o.op = "decide" THEN Append(net, [txs |-> o.txs]) ELSE net
    /\ x' = Do([x EXCEPT !.cast = <<>>, !.sent = <<>>], o)
    /\ blind' = (blind \/ Faulty(o) \/ o.op = "nest" \/ Vague(x, o))
GInit == net = <<[txs |-> <<>>]>> /\ x = Start /\ ops = <<>> /\ done = FALSE /\ plan = <<>> /\ blind = FALSE

(* ---- scripts: a way to get somewhere, one thing that happens there, and what shows that it went well ---- *)
Own(k, txs) == <<OpPropose(k), OpDecideOwn(txs), OpCommit(k)>>
Lead == [none |-> <<>>,
         one |-> <<OpInsert(1)>> \o Own(1, <<1>>),
         other |-> <<OpInsert(1), OpDecide(<<1>>), OpCommit(1)>>,
         empty |-> <<OpDecide(<<>>), OpCommit(1)>>,
         again |-> <<OpInsert(1)>> \o Own(1, <<1>>) \o <<OpRestart>>]
Hows == {"down", "notxs", "height", "low", "prev", "older", "kind", "kindtxs", "less", "more", "content", "sender", "other", "order"}
Checks == {"ok", "height", "past", "arg", "both", "prev", "chain", "order", "confirm", "noconfirm", "state", "receipts", "noreceipts", "twice", "swap"}
H(ld) == IF ld = "none" THEN 0 ELSE 1
Faults == 1..MaxOps
(* a commit that fails at one write, and another attempt *)
CommitF == {<<"one", <<OpInsert(2), OpInsert(3), OpPropose(2), OpDecideOwn(<<2, 3>>), OpCommitF(2, j, FALSE), OpCommit(2),
                       OpInsert(4), OpDecide(<<4>>), OpCheck("ok", 2, <<4>>, <<>>, <<>>), OpCommit(3), OpPropose(4)>>>> : j \in Faults}
       \cup {<<"none", <<OpInsert(2), OpInsert(3), OpDecide(<<2, 3>>), OpCommitF(1, j, FALSE), OpDecide(<<4, 5>>), OpDecide(<<6>>),
                         OpAnnounce(4, 0, ""), OpCommit(1), OpCheck("ok", 3, <<1>>, <<>>, <<1>>)>>>> : j \in Faults}
(* a crash at one write, and the rest from a peer *)
CommitC == {<<"one", <<OpInsert(2), OpInsert(3), OpPropose(2), OpDecideOwn(<<2, 3>>), OpCommitF(2, j, TRUE), OpInsert(4), OpDecide(<<4>>), OpDecide(<<5>>),
                       OpAnnounce(5, 0, ""), OpCheck("ok", 4, <<1>>, <<>>, <<1>>), OpRestart, OpCheck("ok", 4, <<6>>, <<>>, <<6>>)>>>> : j \in Faults}
       \cup {<<"none", <<OpInsert(2), OpDecide(<<2>>), OpCommitF(1, j, TRUE), OpCheck("ok", 0, <<1>>, <<>>, <<1>>), OpCheck("ok", 1, <<1>>, <<>>, <<1>>),
                         OpInsert(2), OpCommit(1)>>>> : j \in Faults}
SyncF == {<<ld, <<OpInsert(2), OpDecide(<<2, 3>>), OpDecide(<<4>>), OpDecide(<<5>>), OpAnnounceF(5, j, c), OpAnnounce(5, 0, ""), OpDecide(<<6>>),
                  OpInsert(6), OpCheck("ok", 4, <<6>>, <<>>, <<>>), OpCommit(5)>>>> : ld \in {"one"}, j \in 1..(3 * MaxOps), c \in BOOLEAN}
Inner == {OpInsert(2), OpInsert(5), OpCommit(2), OpCommit(3), OpAnnounce(4, 0, ""), OpAnnounce(5, 0, ""), OpPropose(2), OpPropose(3),
          OpCheck("ok", 1, <<2, 3>>, <<5>>, <<3, 5>>), OpCheck("ok", 2, <<4>>, <<>>, <<4>>), OpAuthority(1)}
NestC == {<<"one", <<OpInsert(2), OpInsert(3), OpDecide(<<2, 3>>), OpDecide(<<4>>), OpDecide(<<6>>), OpNest(OpCommit(2), at, b), OpInsert(4),
                     OpCommit(3), OpCheck("ok", 3, <<6>>, <<>>, <<6>>), OpInsert(2)>>>> : at \in Faults, b \in Inner}
NestS == {<<"one", <<OpInsert(2), OpInsert(3), OpDecide(<<2, 3>>), OpDecide(<<4>>), OpDecide(<<6>>), OpNest(OpAnnounce(4, 0, ""), at, b), OpInsert(6),
                     OpCommit(4), OpCheck("ok", 4, <<7>>, <<>>, <<7>>), OpInsert(2)>>>> : at \in 1..(2 * MaxOps), b \in Inner \ {OpPropose(2), OpPropose(3)}}
(* a commit while an announcement that leads nowhere is looked at *)
NestW == {<<"one", <<OpInsert(2), OpInsert(3), OpDecide(<<2, 3>>), OpDecide(<<4>>), OpDecide(<<6>>), OpNest(OpAnnounce(n, 0, ""), at, OpCommit(2)),
                     OpInsert(4), OpCommit(3)>>>> : n \in {2, 3}, at \in 1..3}
      \cup {<<"one", <<OpInsert(2), OpInsert(3), OpDecide(<<2, 3>>), OpDecide(<<4>>), OpDecide(<<6>>), OpNest(OpAnnounce(4, 2, how), at, OpCommit(2)),
                     OpInsert(4), OpCommit(3)>>>> : how \in {"down", "height", "notxs"}, at \in 1..6}
BadPeer == {<<ld, <<OpInsert(5), OpDecide(<<2, 3>>), OpDecide(<<4, 5>>), OpDecide(<<6, 7>>), OpAnnounce(H(ld) + 4, H(ld) + at, how), OpInsert(6),
                    OpAnnounce(H(ld) + 4, 0, ""), OpAnnounce(H(ld) + 4, 0, ""), OpCheck("ok", H(ld) + 3, <<8>>, <<>>, <<8>>)>>>>
             : ld \in {"none", "one"}, at \in 1..3, how \in Hows}
Told == {<<ld, <<OpDecide(<<2>>), OpDecide(<<3, 4>>), OpAnnounce(n, 0, ""), OpAnnounce(n, 0, ""), OpCheck("ok", H(ld) + 2, <<5>>, <<>>, <<5>>),
                 OpInsert(2), OpCommit(H(ld) + 1), OpAnnounce(m, 0, ""), OpInsert(3), OpInsert(4), OpCommit(H(ld) + 2)>>>>
          : ld \in {"none", "one", "again"}, n \in -1..6, m \in {0, 3, 4}}
Check(ld, v, txs, prop, supply) ==
    <<ld, <<OpInsert(2), OpCheck(v, H(ld), txs, prop, supply), OpCheck("ok", H(ld), <<2>>, <<>>, <<>>), OpDecide(txs), OpCommit(H(ld) + 1),
            OpInsert(9), OpPropose(H(ld) + 2)>>>>
Proposal == {Check(ld, v, <<2, 3>>, <<4>>, sup) : ld \in DOMAIN Lead, v \in Checks, sup \in {<<2, 3, 4>>, <<4>>}}
       \cup {Check(ld, "ok", txs, prop, sup) : ld \in {"none", "one", "again"}, txs \in {<<>>, <<2>>, <<3>>, <<2, 3>>, <<3, 2>>, <<5, 3>>}, prop \in {<<>>, <<3>>, <<4, 5>>},
                                               sup \in {<<>>, <<3>>, <<3, 4>>, <<3, 4, 5>>}}
       \cup {<<ld, <<OpInsert(2), OpCheck("ok", b, <<2>>, <<>>, <<>>), OpPropose(H(ld) + 1), OpCheck("own", H(ld), <<2>>, <<>>, <<>>),
                     OpDecideOwn(<<2>>), OpCommitM(H(ld) + 1), OpPropose(H(ld) + 1), OpPropose(H(ld) + 2), OpCheck("ok", b, <<3>>, <<>>, <<3>>)>>>>
               : ld \in DOMAIN Lead, b \in {0}} \cup {<<ld, <<OpCheck("ok", 1, <<2>>, <<>>, <<2>>), OpCheck("ok", 0, <<2>>, <<>>, <<2>>)>>>> : ld \in {"one", "again"}}
       \cup {<<"one", <<OpDecide(<<2>>), OpDecide(<<3>>), OpAnnounce(4, 0, ""), OpCheck(v, b, <<4, 5>>, <<>>, <<4, 5>>)>>>> : v \in Checks, b \in 1..3}
Relays == {<<"one", <<OpRelay(d, k, n, sp), OpAuthority(0), OpAuthority(1), OpAuthority(2)>>>>
             : d \in {"in"}, k \in {"proposal", "vote", "qc"}, n \in {0, 1, 40}, sp \in {"", "cut", "empty", "junk"}}
     \cup {<<"none", <<OpRelay("out", k, n, "")>>>> : k \in {"proposal", "vote", "qc"}, n \in 0..70}
(* what is known not to hold: the proof of a block fetched last is not known, and a process that died in a commit has *)
(* overwritten the proof before it has the block                                                                      *)
Known == {<<"none", <<OpDecide(<<1>>), OpDecide(<<2>>), OpAnnounce(3, 0, ""), OpPropose(3)>>>>,
          <<"none", <<OpInsert(1), OpDecide(<<1>>), OpCommitF(1, 2, TRUE), OpPropose(1)>>>>}
Plans == CommitF \cup CommitC \cup SyncF \cup NestC \cup NestS \cup NestW \cup BadPeer \cup Told \cup Proposal \cup Relays \cup Known
ScriptNext ==
    /\ Mode = "script" /\ UNCHANGED done
    /\ IF ops = <<>> THEN \E p \in Plans : plan' = Lead[p[1]] \o p[2] /\ Emit(OpConf(9))
       ELSE plan # <<>> /\ Emit(plan[1]) /\ plan' = Tail(plan)
(* what happens in a script, when nothing fails, makes sense *)
Promise == Mode = "script" => Follows /\ Proofs /\ (ops # <<>> => Clean)

(* ---- exhaustive: short histories of everything ---- *)
Left(y) == {n \in 1..Txs : n \notin Decided(0, Top)}
Seqs(S) == {<<>>} \cup {<<n>> : n \in S} \cup {<<n, m>> : n, m \in S}
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
SeqOps ==
    {OpInsert(n) : n \in 1..Txs} \cup {OpDecide(q) : q \in {r \in Seqs(Left(x)) : Distinct(r) /\ Top < 3 /\ Len(r) # 1}}
    \cup {OpCommit(k) : k \in {x.h, x.h + 1} \cap 1..Top} \cup {OpAnnounce(n, 0, "") : n \in {Top, Top + 1, Top + 2}}
    \cup (IF x.pf = x.h /\ ~blind THEN {OpPropose(x.h + 1)} ELSE {}) \cup {OpCheck("ok", x.h, <<n>>, <<>>, <<n>>) : n \in Left(x)}
    \cup {OpRestart}
SeqNext ==
    /\ Mode = "seq" /\ UNCHANGED <<done, plan>>
    /\ IF ops = <<>> THEN Emit(OpConf(Txs))
       ELSE Len(ops) < MaxOps /\ \E o \in SeqOps : Emit(o)
Closed == CASE Mode = "script" -> ops' # <<>> /\ plan' = <<>> [] Mode = "seq" -> Len(ops') = MaxOps [] OTHER -> FALSE
PrintAll == Closed => PrintT("BEH " \o ToJson(ops'))
PromiseS == Follows /\ Proofs /\ Clean
(* the chain only grows, and what is stored stays *)
Grows == [][x'.h >= x.h /\ x.st \subseteq x'.st]_gvars

(* ---- random ---- *)
Pick(q) == q[RandomElement(1..Len(q))]
RN(z) == RandomElement(1..9)
Shuffle(S) == LET RECURSIVE F(_) F(U) == IF U = {} THEN <<>> ELSE LET e == RandomElement(U) IN <<e>> \o F(U \ {e}) IN F(S)
Some(S, p) == {n \in S : RandomElement(1..p) = 1}
RTxs(z) == LET F == 1..9 \ Decided(0, Top) IN Shuffle(Some(F, RandomElement(1..3) + 1))
RCommit(z) == IF Top = 0 THEN 0 ELSE Min(Top, RandomElement({x.h, x.h + 1, x.h + 1, x.h + 1, x.h + 1, x.h + 2}))
RBad(z) == IF RandomElement(1..2) = 1 THEN [at |-> 0, how |-> ""]
           ELSE LET at == x.h + RandomElement(1..3)  k == IF at <= Top THEN Len(net[at + 1].txs) ELSE 0 IN
                [at |-> at, how |-> Pick(<<"down", "height", "low", "prev", "older", "kind">> \o <<"notxs", "kindtxs">>
                                         \o (IF k >= 1 THEN <<"less", "more", "content", "sender", "other">> ELSE <<>>) \o (IF k >= 2 THEN <<"order">> ELSE <<>>))]
ROp(c) ==
    CASE c = "insert" -> [op |-> "insert", n |-> RN(0)]
      [] c = "decide" -> IF x.own.h = Top + 1 /\ ~blind /\ x.h = Top THEN OpDecideOwn(Shuffle(x.pool)) ELSE OpDecide(RTxs(0))
      [] c = "propose" -> OpPropose(x.h + (IF RandomElement(1..6) = 1 THEN RandomElement(0..2) ELSE 1))
      [] c = "check" ->
           LET b == IF RandomElement(1..8) = 1 THEN RandomElement(0..Top) ELSE Min(x.h, Top)
               F == 1..9 \ Decided(0, b)
               q == Shuffle(Some(F, 3))
               v == IF RandomElement(1..2) = 1 THEN "ok" ELSE RandomElement(Checks)
               w == IF (v = "twice" /\ q = <<>>) \/ (v = "swap" /\ Len(q) < 2) THEN "prev" ELSE v
           IN OpCheck(w, b, q, Shuffle(Some(F, 4)), IF RandomElement(1..3) = 1 THEN Shuffle(Some(1..9, 2)) ELSE <<1, 2, 3, 4, 5, 6, 7, 8, 9>>)
      [] c = "commit" -> IF RandomElement(1..4) = 1 THEN OpCommitM(RCommit(0)) ELSE OpCommit(RCommit(0))
      [] c = "commitf" -> OpCommitF(RCommit(0), RandomElement(1..16), RandomElement(BOOLEAN))
      [] c = "announce" -> LET b == RBad(0) IN OpAnnounce(RandomElement({Top + 1, Top + 1, Top + 1, Top, Top + 2, RandomElement(-1..8)}), b.at, b.how)
      [] c = "announcef" -> OpAnnounceF(Top + 1, RandomElement(1..40), RandomElement(BOOLEAN))
      [] c = "restart" -> OpRestart
      [] c = "authority" -> OpAuthority(RandomElement(0..Top))
      [] OTHER -> LET d == Pick(<<"in", "out">>) IN OpRelay(d, Pick(<<"proposal", "vote", "qc">>), RandomElement(0..200), IF d = "in" THEN Pick(<<"", "", "cut", "empty", "junk">>) ELSE "")
Fine(o) == /\ o.op = "propose" => (x.pf = x.h /\ ~blind)
           /\ o.op = "commit" => o.k > 0
           /\ o.op = "decide" => Top < 8
RandNext ==
    /\ Mode = "random" /\ Len(ops) < MaxOps /\ UNCHANGED <<done, plan>>
    /\ IF ops = <<>> THEN Emit(OpConf(9))
       ELSE \E c \in {Pick(<<"insert", "insert", "insert", "insert", "decide", "decide", "decide", "propose", "propose", "check", "check", "check", "commit", "commit", "commit",
                             "commit", "commitf", "announce", "announce", "announcef", "restart", "authority", "relay", "nest">>)} :
            IF c # "nest"
            THEN \E o \in {ROp(c)} : IF Fine(o) THEN Emit(o) ELSE Emit(OpInsert(RN(0)))
            ELSE \E a \in {IF RandomElement(1..2) = 1 THEN OpCommit(RCommit(0)) ELSE OpAnnounce(Top + 1, 0, "")},
                    b \in {ROp(Pick(<<"insert", "insert", "check", "commit", "announce">>))}, at \in {RandomElement(1..20)} :
                 IF Fine(a) /\ Fine(b) THEN Emit(OpNest(a, at, b)) ELSE Emit(OpInsert(RN(0)))
GDone == Mode = "random" /\ Len(ops) = MaxOps /\ ~done /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<net, x, ops, plan, blind>>
GNext == ScriptNext \/ SeqNext \/ RandNext \/ GDone
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
