------------------------------ MODULE GenNative -------------------------------
EXTENDS Native, Json
CONSTANTS Mode, MaxOps
VARIABLES ops, done
gvars == <<n, hist, avail, blk, ops, done>>
view == <<n, hist>>
NextTok(w) == IF \E t \in DOMAIN hist : hist[t] = w THEN CHOOSE t \in DOMAIN hist : hist[t] = w
              ELSE "r" \o ToString(Cardinality(DOMAIN hist) + 1)
Blank == [op |-> "", a |-> "u1", to |-> "u1", s |-> "sys#0", v |-> Zero, used |-> 0, limit |-> 100000, kind |-> "asset",
          name |-> "", symbol |-> "", supply |-> "0", root |-> ""]
Op(o) == [Blank EXCEPT !.op = o]

SmallCalls == UNION { {[Op("add") EXCEPT !.a = a, !.v = <<1, 0, 0>>], [Op("sub") EXCEPT !.a = a, !.v = <<1, 0, 0>>],
                       [Op("sub") EXCEPT !.a = a], [Op("create") EXCEPT !.a = a], [Op("inc") EXCEPT !.a = a],
                       [Op("bal") EXCEPT !.a = a], [Op("nonce") EXCEPT !.a = a]} : a \in {"u1", "c1"} }
        \cup {[Op("transfer") EXCEPT !.a = f, !.to = t, !.v = <<1, 0, 0>>, !.limit = 210] : f \in {"u1", "c1"}, t \in {"u1", "c1"}}
        \cup {[Op("transfer") EXCEPT !.a = "c1", !.v = <<1, 0, 0>>, !.limit = 209], Op("register"), Op("asset"),
              [Op("register") EXCEPT !.limit = 2099], [Op("register") EXCEPT !.kind = "app"]}
Small(x) == /\ \A a \in DOMAIN x.acct : x.acct[a].nonce <= 1 /\ \A s \in DOMAIN x.acct[a].bal : x.acct[a].bal[s][1] <= 2
Pick(seq) == seq[RandomElement(1..Len(seq))]
RAmt(z) == Pick(<< <<0,0,0>>, <<1,0,0>>, <<1,0,0>>, <<2,0,0>>, <<3,0,0>>, <<0,0,1>>, <<1,0,1>>, <<0,1,0>>, <<2,0,-1>> >>)
RAddr(z) == Pick(<<"u1", "u2", "c1", "c1", "u3">>)
RAsset(z) == Pick(<<"sys#0", "sys#0", "k1#0">>)
RCall(z) == [op |-> Pick(<<"add", "add", "add", "sub", "sub", "transfer", "transfer", "transfer", "transfer0", "create", "inc", "inc", "bal", "nonce",
                           "register", "register", "asset">>),
             a |-> RAddr(z), to |-> RAddr(z), s |-> RAsset(z), v |-> RAmt(z), used |-> Pick(<<0, 0, 10, 300>>),
             limit |-> Pick(<<100000, 100000, 210, 220, 2100, 2110, 500, 0>>), kind |-> Pick(<<"asset", "asset", "asset", "app", "native", "library">>),
             name |-> Pick(<<"Muta", "">>), symbol |-> Pick(<<"S", "T T">>), supply |-> Pick(<<"0", "7", "123456789012345678901234567890">>), root |-> ""]

GInit == NInit /\ ops = <<>> /\ done = FALSE
Do(o) == ops' = Append(ops, o)
Ctl == \/ ~n.open /\ hist = EmptyF /\ NNew /\ Do(Op("new"))
       \/ n.open /\ n.work # n.stash /\ NRevert /\ Do(Op("revert"))
       \/ n.open /\ n.dirty /\ n.work = n.stash /\ NRevert /\ Do(Op("revert"))
       \/ n.work # n.stash /\ NStash /\ Do(Op("stash"))
       \/ NCommit(NextTok(n.stash)) /\ Do(Op("commit"))
       \/ \E t \in DOMAIN hist : NOpen(t) /\ Do([Op("open") EXCEPT !.root = t])
SmallNext == /\ Mode = "small" /\ Len(ops) < MaxOps /\ UNCHANGED done
             /\ Ctl \/ \E c \in SmallCalls : Call(c) /\ Do(c)
SmallOnly == Small(n.work)
RandNext ==
    /\ Mode = "random" /\ Len(ops) < MaxOps /\ UNCHANGED done
    /\ IF ~n.open THEN NNew /\ Do(Op("new"))
       ELSE IF n.dirty THEN NRevert /\ Do(Op("revert"))
       ELSE \E k \in {RandomElement(1..12)} :
            CASE k <= 8 -> \E c \in {RCall(ops)} : Call(c) /\ Do(c)
              [] k = 9 -> NRevert /\ Do(Op("revert"))
              [] k = 10 -> NStash /\ Do(Op("stash"))
              [] k = 11 -> NCommit(NextTok(n.stash)) /\ Do(Op("commit"))
              [] OTHER -> IF hist = EmptyF THEN NNew /\ Do(Op("new"))
                          ELSE \E t \in {RandomElement(DOMAIN hist)} : NOpen(t) /\ Do([Op("open") EXCEPT !.root = t])
GDone == /\ Mode = "random" /\ Len(ops) = MaxOps /\ ~done
         /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<n, hist, avail, blk, ops>>
GNext == SmallNext \/ RandNext \/ GDone

Last == ops'[Len(ops')]
Made(o) == ops' # ops /\ Last.op = o
(* C01: a transfer moves value, totals stay *)
Moves == [][Made("transfer") /\ ~n'.dirty => \A s \in Assets(n.work) \cup Assets(n'.work) : Total(n'.work, s) = Total(n.work, s)]_gvars
(* C03 *)
NonceSteps == [][n.open /\ ops' # ops /\ Last.op \notin {"new", "open", "revert"} =>
      \A a \in DOMAIN n'.work.acct : n'.work.acct[a].nonce = Acct(n.work, a).nonce + (IF Last.op = "inc" /\ Last.a = a THEN 1 ELSE 0)]_gvars
(* C07 *)
RegKept == [][n.open /\ ops' # ops /\ Last.op \notin {"new", "open", "revert"} =>
      \A s \in DOMAIN n.work.reg : Has(n'.work.reg, s) /\ n'.work.reg[s] = n.work.reg[s]]_gvars
(* C09 *)
RevertsToStash == [][Made("revert") => n'.work = n.stash]_gvars
PrintAll == (Mode = "small" /\ ops' # ops) => PrintT("BEH " \o ToJson(ops'))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
