------------------------------ MODULE PeersTrace ------------------------------
(* Recorded commands of the peer manager against Peers. FOCUS says what is    *)
(* judged: sessions and the limit (C30), who is known and dialed when (C31),  *)
(* where messages go (C32), what a restart keeps (C33).                       *)
EXTENDS Peers, TraceLib
VARIABLES s, skip
tvars == <<s, skip, l>>

Users == {"p1", "p2", "p3", "p4", "p9"}
TInit == s = Empty /\ l = 1 /\ skip = FALSE
TReset == Is("reset") /\ s' = Empty /\ skip' = FALSE

CntQ(q, t) == Cardinality({i \in Idx(q) : q[i] = t})
SameSet(q, S) == Len(q) = Cardinality(S) /\ Elems(q) = S
T == [s EXCEPT !.now = E.now, !.disc = {}]
OwnOf(t) == IF t \in Addr THEN Own[t] ELSE "none"
Events == {"start", "restart", "in", "again", "dial", "close", "alive", "err", "late", "disc", "ident", "listen", "mcast", "tick"}

(* ---- the event itself ---- *)
ErrTo(x) == CASE E.k = "unknownproto" -> BadPeer(x, E.p)
              [] E.k \in {"proto", "blocked", "misbehave"} -> BadSession(x, E.sid)
              [] OTHER -> Later(x, E.p)
Old == CASE E.e = "restart" /\ E.how = "stop" -> Save(s)
         [] E.e = "restart" /\ E.how \in {"cut", "gone"} -> [s EXCEPT !.onfile = FALSE]
         [] OTHER -> s
After ==
    CASE E.e = "start" -> [Boot(s, Elems(E.boots), E.max, E.now - 1) EXCEPT !.now = E.now]
      [] E.e = "restart" -> [Boot(Old, s.boots, s.max, E.now - 1) EXCEPT !.now = E.now]
      [] E.e = "in" -> Attach(T, E.p, E.sid, {})
      [] E.e = "dial" /\ E.out = "ok" -> Attach(T, Own[E.a], E.sid, {Root[E.a] \o "+"})
      [] E.e = "dial" /\ E.out = "repeated" -> Repeated(T, E.sid, E.a)
      [] E.e = "dial" /\ E.out = "refused" -> Refused(T, E.a)
      [] E.e = "dial" /\ E.out = "timeout" -> TimedOut(T, E.a)
      [] E.e = "dial" /\ E.out = "self" -> Self(T, E.a)
      [] E.e = "close" -> Detach(T, E.p)
      [] E.e = "alive" -> Alive(T, E.p)
      [] E.e \in {"err", "late"} -> ErrTo(T)
      [] E.e = "disc" -> DiscoverAll(T, E.as)
      [] E.e = "ident" -> Identify(T, E.p, Elems(E.as))
      [] E.e = "listen" -> IF E.on = "yes" THEN Self(T, E.a) ELSE Unlisten(T, E.a)
      [] OTHER -> T

(* ---- what the event makes the manager dial at once, before the routine ---- *)
Forced(x) == CASE E.e \in {"start", "restart"} /\ x.boots # {} -> <<{BootAddr(p) : p \in x.boots}>>
               [] E.e = "mcast" -> <<DialFor(x, Elems(E.us))>>
               [] OTHER -> <<>>
ForcedOk(x, ds, f) == Len(ds) >= Len(f) /\ \A i \in Idx(f) : Elems(ds[i]) = f[i]
Rest(ds, f) == SubSeq(ds, Len(f) + 1, Len(ds))
(* the routine dials in one command, or not at all *)
Fits(x, ds, S, U) ==
    IF S = {} /\ U = {} THEN ds = <<>>
    ELSE Len(ds) = 1 /\ \A t \in Elems(ds[1]) \cup AddrsOf(x, S) \cup U :
                           CntQ(ds[1], t) = (IF t \in AddrsOf(x, S) THEN 1 ELSE 0) + (IF t \in U THEN 1 ELSE 0)
Unks(x, ds, S) == IF ds = <<>> THEN {} ELSE {t \in Elems(ds[1]) : CntQ(ds[1], t) > (IF t \in AddrsOf(x, S) THEN 1 ELSE 0)}
Outcomes(x, ds) == (* the states the routine can have led to *)
    {Dial(x, S, Unks(x, ds, S)) : S \in {S \in Picks(x) : LET U == Unks(x, ds, S) IN
                                          U \subseteq Idle(x) /\ Cardinality(U) = NumUnk(x) /\ Fits(x, ds, S, U)}}
OverLimit(x, ds) == ds # <<>> /\ (Room(x) <= 0 \/ Len(ds) > 1 \/ Cardinality({IF OwnOf(t) = "none" THEN t ELSE OwnOf(t) : t \in Elems(ds[1])}) > Room(x))

(* ---- observables ---- *)
SentOk(msgs, x, us, msg, pri) == Len(msgs) = 1 /\ Elems(msgs[1].to) = SendTo(x, us) /\ msgs[1].msg = msg /\ msgs[1].pri = pri
Probe == E.probe
ProbeSent(x) == SentOk(Probe.msgs, x, Users, "probe", "normal") /\ Elems(Probe.miss) = Missed(x, Users)
ProbeDial(x) == Len(Probe.dial) >= 1 /\ SameSet(Probe.dial[1], DialFor(x, Users))
ProbeRest == IF Probe.dial = <<>> THEN <<>> ELSE Tail(Probe.dial)
NoPanic == E.panics = 0 /\ Probe.panics = 0
DiscOk(x) == SameSet(E.disc, x.disc) /\ Probe.disc = <<>>
KnownOk(x) == SameSet(E.known, AddrsOf(x, x.known \cup {"p0"}))
McastOk(x) == IF E.e # "mcast" THEN E.msgs = <<>>
              ELSE LET us == Elems(E.us) IN
                   /\ SentOk(E.msgs, x, us, E.msg, E.pri)
                   /\ Elems(E.miss) = Missed(x, us)
                   /\ E.res = IF Missed(x, us) = {} THEN "ok" ELSE "miss"
Ends(x) == UNION {Outcomes(y, ProbeRest) : y \in Outcomes(x, Rest(E.dial, Forced(x)))}
All3(x) == NoPanic /\ DiscOk(x) /\ KnownOk(x) /\ McastOk(x) /\ ProbeSent(x) /\ ProbeDial(x) /\ ForcedOk(x, E.dial, Forced(x))
Good(x) == All3(x) /\ Ends(x) # {}

(* ---- what this property says about the event ---- *)
Mine(x) ==
    CASE Focus = "C30" -> /\ NoPanic /\ DiscOk(x) /\ ProbeSent(x)
                          /\ ForcedOk(x, E.dial, Forced(x)) => ~OverLimit(x, Rest(E.dial, Forced(x)))
      [] Focus = "C31" -> NoPanic /\ KnownOk(x) /\ ForcedOk(x, E.dial, Forced(x)) /\ Ends(x) # {}
      [] Focus = "C32" -> NoPanic /\ McastOk(x) /\ ProbeSent(x) /\ ProbeDial(x) /\ (E.e = "mcast" => ForcedOk(x, E.dial, Forced(x)))
      [] Focus = "C33" -> E.e \in {"start", "restart"} => NoPanic /\ KnownOk(x) /\ ProbeSent(x) /\ ProbeDial(x) /\ ForcedOk(x, E.dial, Forced(x)) /\ Ends(x) # {}
      [] OTHER -> TRUE

TStep == /\ More /\ ~skip /\ E.e \in Events /\ l' = l + 1
         /\ LET x == After IN
            IF Good(x) THEN (\E y \in Ends(x) : s' = y) /\ skip' = FALSE
            ELSE Mine(x) /\ skip' = TRUE /\ s' = s /\ Unjudged
TNoop == ~skip /\ Is("noop") /\ UNCHANGED <<s, skip>>
TSkip == /\ More /\ skip /\ E.e \notin {"reset", "crash"} /\ l' = l + 1 /\ UNCHANGED <<s, skip>> /\ Unjudged
TNext == TReset \/ TStep \/ TNoop \/ TSkip
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
