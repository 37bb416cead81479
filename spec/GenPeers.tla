------------------------------- MODULE GenPeers -------------------------------
(* A transport around the peer manager: sessions open and close, dials are in *)
(* flight and end in every way, the clock moves, the node stops and starts.   *)
EXTENDS Peers, Json
CONSTANTS Mode, MaxOps
VARIABLES s, open, gone, fly, told, nsid, ops, done
gvars == <<s, open, gone, fly, told, nsid, ops, done>>

Pick(q) == q[RandomElement(1..Len(q))]
GInit == s = Empty /\ open = [p \in Peer |-> 0] /\ gone = open /\ fly = {} /\ told = {} /\ nsid = 1 /\ ops = <<>> /\ done = FALSE

(* after the event: the routine, once more after the message that shows who is connected *)
Subsets(X, n) == {U \in SUBSET X : Cardinality(U) = n}
Step(o, s1, open1, fly1) ==
    /\ ops' = Append(ops, o) /\ open' = open1 /\ gone' = [p \in Peer |-> IF open[p] # 0 /\ open1[p] = 0 /\ o.op = "close" THEN open[p] ELSE gone[p]]
    /\ told' = told \cup s1.disc /\ UNCHANGED done
    /\ IF Mode = "random"
       THEN \E S \in {RandomElement(Picks(s1))} : \E U \in {RandomElement(Subsets(Idle(s1), NumUnk(s1)))} :
            LET s2 == Dial(s1, S, U) IN
            \E S2 \in {RandomElement(Picks(s2))} : \E U2 \in {RandomElement(Subsets(Idle(s2), NumUnk(s2)))} :
            /\ s' = Dial(s2, S2, U2) /\ fly' = fly1 \cup AddrsOf(s1, S) \cup U \cup AddrsOf(s2, S2) \cup U2
       ELSE \E S \in Picks(s1) : \E U \in Subsets(Idle(s1), NumUnk(s1)) :
            LET s2 == Dial(s1, S, U) IN
            \E S2 \in Picks(s2) : \E U2 \in Subsets(Idle(s2), NumUnk(s2)) :
            /\ s' = Dial(s2, S2, U2) /\ fly' = fly1 \cup AddrsOf(s1, S) \cup U \cup AddrsOf(s2, S2) \cup U2
T == [s EXCEPT !.now = @ + 1, !.disc = {}]
NoOpen == [p \in Peer |-> 0]
BootAddrs(bs) == {BootAddr(p) : p \in bs}

SeqOf(S) == LET RECURSIVE F(_) F(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o F(X \ {x}) IN F(S)
DoStart(bs, max) ==
    /\ nsid' = nsid
    /\ Step([op |-> "start", boots |-> SeqOf(bs), max |-> max], [Boot(T, bs, max, T.now) EXCEPT !.now = @ + 1], NoOpen, BootAddrs(bs))
DoRestart(how, at) ==
    LET a == CASE how = "stop" -> Save(T) [] how \in {"cut", "gone"} -> [T EXCEPT !.onfile = FALSE] [] OTHER -> T IN
    /\ nsid' = nsid
    /\ Step([op |-> "restart", how |-> how, at |-> at], [Boot(a, s.boots, s.max, a.now) EXCEPT !.now = @ + 1], NoOpen, BootAddrs(s.boots))
DoIn(p) ==
    LET o == [op |-> "in", p |-> p] IN
    IF open[p] # 0 THEN nsid' = nsid /\ Step(o, T, open, fly)
    ELSE nsid' = nsid + 1 /\ Step(o, Attach(T, p, nsid, {}), [open EXCEPT ![p] = nsid], fly)
OwnOf(t) == IF t \in Addr THEN Own[t] ELSE "none"
Full(t) == Root[t] \o "+"
DoDial(t, out) ==
    LET p == OwnOf(t)
        o == [op |-> "dial", a |-> t, out |-> out, i |-> Len(ops)]
        fly1 == fly \ {t} IN
    CASE p = "p0" -> nsid' = nsid /\ Step(o, Self(T, t), open, fly1)
      [] p = "none" \/ out \in {"refused", "dns"} -> nsid' = nsid /\ Step(o, Refused(T, t), open, fly1)
      [] out \in {"timeout", "interrupted"} -> nsid' = nsid /\ Step(o, TimedOut(T, t), open, fly1)
      [] out = "ok" /\ open[p] # 0 -> nsid' = nsid /\ Step(o, Repeated(T, open[p], t), open, fly1)
      [] OTHER -> nsid' = nsid + 1 /\ Step(o, Attach(T, p, nsid, {Full(t)}), [open EXCEPT ![p] = nsid], fly1)
DoClose(p) == nsid' = nsid /\ Step([op |-> "close", p |-> p], Detach(T, p), [open EXCEPT ![p] = 0], fly)
DoAlive(p, k) == nsid' = nsid /\ Step([op |-> "alive", p |-> p, k |-> k], Alive(T, p), open, fly)
Err(x, p, sid, k) == CASE k = "unknownproto" -> BadPeer(x, p)
                       [] k \in {"proto", "blocked", "misbehave"} -> BadSession(x, sid)
                       [] OTHER -> Later(x, p)
DoErr(p, k) == nsid' = nsid /\ Step([op |-> "err", p |-> p, k |-> k], Err(T, p, open[p], k), open, fly)
DoLate(p, k) == nsid' = nsid /\ Step([op |-> "late", p |-> p, k |-> k], Err(T, p, gone[p], k), open, fly)
DoDisc(ts) == nsid' = nsid /\ Step([op |-> "disc", as |-> ts], DiscoverAll(T, ts), open, fly)
DoIdent(p, ts) == nsid' = nsid /\ Step([op |-> "ident", p |-> p, as |-> SeqOf(ts)], Identify(T, p, ts), open, fly)
DoListen(t, on) == nsid' = nsid /\ Step([op |-> "listen", a |-> t, on |-> IF on THEN "yes" ELSE "no"], IF on THEN Self(T, t) ELSE Unlisten(T, t), open, fly)
DoMcast(us, pri) ==
    nsid' = nsid /\ Step([op |-> "mcast", us |-> us, pri |-> pri, msg |-> "m" \o ToString(Len(ops))], T, open,
                         fly \cup DialFor(T, {us[i] : i \in DOMAIN us}))
DoTick(n) == nsid' = nsid /\ Step([op |-> "tick", s |-> n], [T EXCEPT !.now = @ + n * 1000], open, fly)

(* ---- exhaustive ---- *)
SP == {"p1", "p2"}
SmallNext ==
    /\ Mode = "small" /\ Len(ops) < MaxOps
    /\ IF ops = <<>> THEN \E bs \in {{}, {"p1"}}, max \in {1, 2} : DoStart(bs, max)
       ELSE \/ \E p \in SP : open[p] = 0 /\ DoIn(p)
            \/ \E t \in fly, out \in {"ok", "refused", "timeout"} : DoDial(t, out)
            \/ \E p \in SP : open[p] # 0 /\ DoClose(p)
            \/ \E p \in SP, k \in {"proto", "idle", "unknownproto"} : open[p] # 0 /\ DoErr(p, k)
            \/ \E p \in SP, k \in {"proto", "idle"} : gone[p] # 0 /\ DoLate(p, k)
            \/ \E t \in {"a21", "a21+"} : DoDisc(<<t>>)
            \/ \E p \in SP : open[p] # 0 /\ DoIdent(p, {Tok(p, 2, "")})
            \/ \E n \in {4, 30} : DoTick(n)
            \/ DoRestart("stop", 0)
(* one peer, its only session, every failure: deeper *)
DeepNext ==
    /\ Mode = "deep" /\ Len(ops) < MaxOps
    /\ CASE ops = <<>> -> \E bs \in {{}, {"p1"}} : DoStart(bs, 1)
         [] Len(ops) = 1 /\ s.boots = {} -> DoDisc(<<"a11">>)
         [] OTHER ->
            \/ \E t \in fly, out \in {"ok", "refused", "timeout"} : DoDial(t, out)
            \/ \E p \in {"p1"} : open[p] # 0 /\ (DoClose(p) \/ DoErr(p, "idle") \/ DoErr(p, "proto") \/ DoAlive(p, "ping"))
            \/ \E n \in {2, 2000} : ops[Len(ops)].op # "tick" /\ DoTick(n)
PrintAll == Len(ops') = MaxOps => PrintT("BEH " \o ToJson(ops'))

(* ---- what the specification promises ---- *)
TypeOK == /\ s.dialing \subseteq s.known /\ s.boots \subseteq s.known
          /\ \A p \in Peer : p \notin s.known => s.sess[p] = 0 /\ s.info[p].addrs = {}
          /\ \A p \in All : s.info[p].addrs \subseteq s.am /\ \A t \in s.info[p].addrs : Own[t] = p
(* connected only over an open session; an open session that is not kept was closed *)
SessionKept == \A p \in Peer : /\ s.sess[p] # 0 => open[p] = s.sess[p]
                               /\ open[p] # 0 /\ s.sess[p] = 0 => open[p] \in told
OneEach == \A p, q \in Peer : p # q /\ s.sess[p] # 0 => s.sess[p] # s.sess[q]
NotBoth == \A p \in s.dialing : s.sess[p] = 0
(* a peer that counts as being dialed has a dial that will end, or a session that will *)
NoStuckDial == \A p \in s.dialing : open[p] # 0 \/ \E t \in fly : OwnOf(t) = p
BootsKept == \A p \in s.boots : BootAddr(p) \in s.info[p].addrs
RetryBound == \A p \in s.known : s.info[p].retry < MaxRetry
UnkBound == \A t \in DOMAIN s.unk : s.unk[t].n < MaxRetry
(* the routine keeps the limit; only incoming sessions, configured peers and unknown addresses go beyond *)
LimitKept == [][(s'.dialing \ s.dialing) \ s'.boots # {} => Conns(s') <= s'.max]_gvars
(* nobody who can be dialed waits while there is room *)
NoneLeft == (ops # <<>> /\ Room(s) > 0) => Ready(s) = {}
(* only the bad and the often lost are dropped *)
DropOnly == [][\A p \in s.known \ s'.known :
                  \/ ops'[Len(ops')].op \in {"err", "late", "restart"}
                  \/ s.info[p].retry = MaxRetry - 1]_gvars
RestartKeeps == [][(ops' # ops /\ ops'[Len(ops')].op = "restart" /\ ops'[Len(ops')].how = "stop") =>
                      /\ s'.known = s.known
                      /\ \A p \in All \ s.boots : s'.info[p].addrs = s.info[p].addrs]_gvars

(* ---- random ---- *)
RSub(S, n) == IF S = {} THEN {} ELSE {RandomElement(S) : i \in 1..RandomElement(1..n)}
RUsers(z) == LET q == <<"p1", "p2", "p3", "p4", "p9">> IN
             LET n == RandomElement(1..4) IN [i \in 1..n |-> Pick(q)]
RToks(z) == LET n == Pick(<<1, 1, 1, 2, 3>>) IN
            [i \in 1..n |-> IF RandomElement(1..12) = 1 THEN RandomElement(Odd) ELSE RandomElement(Addr)]
RTick(z) == Pick(<<1, 2, 3, 4, 5, 5, 6, 26, 30, 126, 200, 700, 4000, 16000>>)
Opened == {p \in Peer : open[p] # 0}
RandNext ==
    /\ Mode \in {"random", "boots"} /\ Len(ops) < MaxOps
    /\ IF ops = <<>> THEN \E bs \in {RandomElement(SUBSET {"p1", "p2"})}, m \in {Pick(<<1, 2, 2, 3, 4, 8>>)} : DoStart(bs, m)
       ELSE \E c \in {Pick(<<"in", "in", "in", "dial", "dial", "dial", "dial", "dial", "dial", "close", "close", "alive", "err", "err", "late", "disc", "disc", "ident", "listen",
                             "mcast", "mcast", "tick", "tick", "tick", "restart", "bad">>)} :
            CASE c = "in" \/ (c = "dial" /\ fly = {}) \/ (c \in {"close", "err", "ident"} /\ Opened = {}) -> \E p \in {RandomElement(Peer)} : DoIn(p)
              [] c = "dial" -> \E t \in {RandomElement(fly)}, o \in {Pick(<<"ok", "ok", "ok", "refused", "dns", "timeout", "timeout", "interrupted">>)} : DoDial(t, o)
              [] c = "close" -> \E p \in {RandomElement(Opened)} : DoClose(p)
              [] c = "alive" -> \E p \in {RandomElement(Peer)}, k \in {Pick(<<"ping", "pong">>)} : DoAlive(p, k)
              [] c = "err" -> \E p \in {RandomElement(Opened)}, k \in {Pick(<<"unknownproto", "select", "select", "proto", "idle", "idle", "mux", "blocked",
                                                                              "pingtimeout", "pingtimeout", "pingerr", "misbehave">>)} : DoErr(p, k)
              [] c = "late" /\ \E p \in Peer : gone[p] # 0 -> \E p \in {RandomElement({x \in Peer : gone[x] # 0})}, k \in {Pick(<<"proto", "blocked", "misbehave", "proto", "select", "mux", "pingtimeout">>)} : DoLate(p, k)
              [] c = "disc" -> \E ts \in {RToks(0)} : DoDisc(ts)
              [] c = "ident" -> \E p \in {RandomElement(Opened)} : \E ts \in {RSub({t \in Addr : Own[t] = p}, 3)} : DoIdent(p, ts)
              [] c = "listen" -> \E t \in {RandomElement({x \in Addr : Own[x] = "p0"})}, on \in {Pick(<<TRUE, TRUE, FALSE>>)} : DoListen(t, on)
              [] c = "mcast" -> \E us \in {RUsers(0)}, pri \in {Pick(<<"high", "normal">>)} : DoMcast(us, pri)
              [] c = "tick" -> \E n \in {RTick(0)} : DoTick(n)
              [] c = "bad" -> \E h \in {Pick(<<"kill", "cut", "gone">>)}, at \in {RandomElement(0..99)} : DoRestart(h, at)
              [] OTHER -> DoRestart("stop", 0)
GDone == /\ Mode = "random" /\ Len(ops) = MaxOps /\ ~done
         /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<s, open, gone, fly, told, nsid, ops>>
GNext == SmallNext \/ DeepNext \/ RandNext \/ GDone
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
