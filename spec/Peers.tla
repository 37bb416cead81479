--------------------------------- MODULE Peers --------------------------------
(* The peer manager (core/network): which peers are known, where they can be  *)
(* reached, who is connected over which session, who is being dialed, when a  *)
(* peer may be dialed again, and what is kept over a restart.                 *)
(*                                                                            *)
(* The state is one record and every event is a function on it; the routine,  *)
(* which runs after each event and picks whom to dial, is nondeterministic.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Peer == {"p1", "p2", "p3", "p4"}            \* p0 is the node itself
All == Peer \cup {"p0"}
Num == [p \in All |-> CASE p = "p0" -> 0 [] p = "p1" -> 1 [] p = "p2" -> 2 [] p = "p3" -> 3 [] OTHER -> 4]
(* p's j-th address, plain or with p's own id *)
Tok(p, j, x) == "a" \o ToString(Num[p]) \o ToString(j) \o x
Addr == {Tok(p, j, x) : p \in All, j \in 1..3, x \in {"", "+"}}
Own == [t \in Addr |-> CHOOSE p \in All : \E j \in 1..3, x \in {"", "+"} : t = Tok(p, j, x)]
Root == [t \in Addr |-> LET p == Own[t] IN CHOOSE r \in {Tok(p, j, "") : j \in 1..3} : t = r \/ t = r \o "+"]
(* addresses that match nobody: cut short, or the place of one peer with the id of another *)
Odd == {"a50"} \cup {Tok(p, j, "x") : p \in All, j \in 1..3}
BootAddr(p) == Tok(p, 1, "")

MaxRetry == 6
AttemptMs == 4000      \* failures within this time count once
ShortSecs == 3         \* a session that lives shorter is a failure
Pow5 == <<5, 25, 125, 625, 3125, 15625, 78125>>
Never == -1000000
Secs(ms) == ms \div 1000

Fresh(p, as, now) == [addrs |-> as, retry |-> 0, next |-> now, att |-> -10, at |-> Never]
Nobody == [known |-> {}, info |-> [p \in All |-> Fresh(p, {}, 0)]]
Empty == [now |-> 0, max |-> 0, boots |-> {}, known |-> {}, info |-> [p \in All |-> Fresh(p, {}, 0)], am |-> {},
          sess |-> [p \in Peer |-> 0], dialing |-> {}, unk |-> <<>>, disc |-> {}, saved |-> Nobody, onfile |-> FALSE]

Connected(s, p) == IF p = "p0" THEN TRUE ELSE s.sess[p] # 0
Conns(s) == Cardinality({p \in Peer : s.sess[p] # 0}) + Cardinality(s.dialing)
Match(s, t) == IF t \notin Addr THEN "none"
               ELSE IF t \in s.am \/ Root[t] \in s.am THEN Own[t] ELSE "none"
IsKnown(s, p) == IF p = "p0" THEN TRUE ELSE p \in s.known

(* ---- a failure is counted once in a while, and puts the next attempt off ---- *)
Count(s, p) ==
    IF ~IsKnown(s, p) THEN s
    ELSE IF s.now - s.info[p].att * 1000 < AttemptMs THEN s
    ELSE LET r == s.info[p].retry + 1 IN
         [s EXCEPT !.info[p].retry = r, !.info[p].att = Secs(s.now), !.info[p].next = s.now + Pow5[r] * 1000]
CloseSess(s, p) == [s EXCEPT !.dialing = @ \ {p}, !.sess[p] = 0]
(* drop a peer; a configured one stays *)
CleanRemove(s, p) ==
    LET s1 == CloseSess(IF s.sess[p] # 0 THEN [s EXCEPT !.disc = @ \cup {s.sess[p]}] ELSE s, p) IN
    IF p \in s.boots THEN Count(Count([s1 EXCEPT !.info[p].retry = 0], p), p)
    ELSE [s1 EXCEPT !.known = @ \ {p}, !.am = @ \ s1.info[p].addrs, !.info[p] = Fresh(p, {}, s.now)]
IncPeer(s, p) ==
    LET s1 == Count(s, p) IN
    IF ~IsKnown(s, p) \/ s1.info[p].retry >= MaxRetry THEN CleanRemove(s1, p) ELSE s1
Failed(s, t) == (* a dial to t did not succeed, whoever is there *)
    LET p == Match(s, t) IN
    IF p = "none" \/ p = "p0" THEN s
    ELSE IF Connected(s, p) THEN s
    ELSE IncPeer([s EXCEPT !.dialing = @ \ {p}], p)
Forget(s, t) == [s EXCEPT !.unk = [x \in DOMAIN s.unk \ {t} |-> s.unk[x]]]
AddAddrs(s, p, ts) == [s EXCEPT !.info[p].addrs = @ \cup ts, !.am = @ \cup ts]

(* ---- events ---- *)
Attach(s, p, sid, ts) == (* ts: the address dialed, none for an inbound session *)
    LET s1 == IF p \in s.known THEN AddAddrs(s, p, ts)
              ELSE LET s2 == [s EXCEPT !.unk = [x \in DOMAIN s.unk \ ts |-> s.unk[x]]] IN
                   [s2 EXCEPT !.known = @ \cup {p}, !.info[p] = Fresh(p, ts, s.now), !.am = @ \cup ts]
    IN [s1 EXCEPT !.dialing = @ \ {p}, !.sess[p] = sid, !.info[p].at = Secs(s.now)]
Detach(s, p) ==
    LET s1 == CloseSess(s, p) IN
    IF p \in s.known /\ Secs(s.now - s.info[p].at * 1000) < ShortSecs THEN IncPeer(s1, p) ELSE s1
Alive(s, p) == IF p \in s.known THEN [s EXCEPT !.info[p].retry = 0] ELSE s
Later(s, p) == (* something went wrong with a session that may be better next time *)
    LET s1 == IncPeer(s, p) IN
    IF s1.sess[p] # 0 THEN [s1 EXCEPT !.disc = @ \cup {s1.sess[p]}] ELSE s1
BadPeer(s, p) == CleanRemove(s, p)
BadSession(s, sid) == IF \E p \in Peer : s.sess[p] = sid THEN CleanRemove(s, CHOOSE p \in Peer : s.sess[p] = sid) ELSE s
Discover(s, t) ==
    LET p == Match(s, t) IN
    IF p = "none" THEN (IF t \in DOMAIN s.unk THEN s ELSE [s EXCEPT !.unk = (t :> [busy |-> FALSE, n |-> 0]) @@ @])
    ELSE IF Connected(s, p) THEN AddAddrs(s, p, {t}) ELSE s
RECURSIVE DiscoverAll(_, _)
DiscoverAll(s, ts) == IF ts = <<>> THEN s ELSE DiscoverAll(Discover(s, Head(ts)), Tail(ts))
Identify(s, p, ts) == IF p \in s.known THEN AddAddrs(s, p, ts) ELSE s
Repeated(s, sid, t) ==
    LET s1 == Forget(s, t) IN
    IF \E p \in Peer : s.sess[p] = sid THEN AddAddrs(s1, CHOOSE p \in Peer : s.sess[p] = sid, {t}) ELSE s1
Refused(s, t) == (* nobody can be reached there *)
    LET s1 == Forget(s, t)
        kept == t \in {BootAddr(p) : p \in s.boots}
        s2 == IF ~kept /\ t \in s.am THEN [s1 EXCEPT !.am = @ \ {t}, !.info[Own[t]].addrs = @ \ {t}] ELSE s1
        p == Match(s, t)
    IN IF p = "none" \/ p = "p0" THEN s2
       ELSE IF Connected(s, p) THEN s2
       ELSE IncPeer([s2 EXCEPT !.dialing = @ \ {p}], p)
TimedOut(s, t) ==
    LET s1 == IF t \notin DOMAIN s.unk THEN s
              ELSE IF s.unk[t].n + 1 >= MaxRetry THEN Forget(s, t)
              ELSE [s EXCEPT !.unk[t] = [busy |-> FALSE, n |-> @.n + 1]]
    IN Failed(s1, t)
Self(s, t) == AddAddrs(s, "p0", {t})
Unlisten(s, t) == [s EXCEPT !.am = @ \ {t}, !.info["p0"].addrs = @ \ {t}]

(* ---- life ---- *)
Save(s) == [s EXCEPT !.saved = [known |-> s.known, info |-> s.info], !.onfile = TRUE]
(* what is on file is back, with nobody connected; configured peers start with the configured address *)
Boot(s, boots, max, now) ==
    LET got == IF s.onfile THEN s.saved ELSE Nobody
        info == [p \in All |-> IF p \in boots THEN Fresh(p, {BootAddr(p)}, now)
                               ELSE [Fresh(p, got.info[p].addrs, now) EXCEPT !.at = got.info[p].at]]
        old == UNION {got.info[p].addrs : p \in All}
    IN [Empty EXCEPT !.now = now, !.max = max, !.boots = boots, !.known = got.known \cup boots, !.info = info,
                     !.am = old \cup {BootAddr(p) : p \in boots}, !.dialing = boots, !.saved = s.saved, !.onfile = s.onfile]

(* ---- the routine ---- *)
Room(s) == s.max - Conns(s)
Ready(s) == {p \in s.known : ~Connected(s, p) /\ p \notin s.dialing /\ s.info[p].addrs # {} /\ s.now > s.info[p].next}
Idle(s) == {t \in DOMAIN s.unk : ~s.unk[t].busy}
Min(a, b) == IF a < b THEN a ELSE b
Most(s) == Min(Room(s), Cardinality(Ready(s)))
Picks(s) == IF Room(s) <= 0 THEN {{}} ELSE {S \in SUBSET Ready(s) : Cardinality(S) = Most(s)}
NumUnk(s) == IF Room(s) <= 0 THEN 0 ELSE Min(Room(s) - Most(s), Cardinality(Idle(s)))
Dial(s, S, U) == [s EXCEPT !.dialing = @ \cup S, !.unk = [t \in DOMAIN s.unk |-> IF t \in U THEN [s.unk[t] EXCEPT !.busy = TRUE] ELSE s.unk[t]]]
AddrsOf(s, S) == UNION {s.info[p].addrs : p \in S}

(* ---- sending to users ---- *)
SendTo(s, us) == {s.sess[u] : u \in {x \in us \cap s.known : s.sess[x] # 0}}
Missed(s, us) == {u \in us : u \notin s.known \/ s.sess[u] = 0}
DialFor(s, us) == AddrsOf(s, {u \in us \cap s.known : s.sess[u] = 0})
=============================================================================
