------------------------------ MODULE LedgerTrace ------------------------------
(* Is the recorded execution of the executor a behaviour of Ledger?            *)
(* For the property FOCUS the fields it speaks about are compared at every     *)
(* event; when some other field differs first, the rest of that behaviour is   *)
(* not judged (skip).  C04 is judged on the recorded worlds and roots alone.   *)
EXTENDS Ledger, TraceLib

VARIABLES skip,     \* this behaviour left the specification in a field not in focus
          rroots,   \* state roots in the receipts of the open block
          seen,     \* C04: root -> recorded world
          execs     \* C04: what was executed -> what came out
tvars == <<hist, avail, blk, l, skip, rroots, seen, execs>>
C04 == Focus = "C04"

FunOf(s) == [k \in {s[i][1] : i \in Idx(s)} |-> s[CHOOSE i \in Idx(s) : s[i][1] = k]]
WorldOf(j) == [acct |-> [a \in {j.acct[i][1] : i \in Idx(j.acct)} |->
                   LET x == FunOf(j.acct)[a] IN
                   [nonce |-> x[2], bal |-> [s \in DOMAIN FunOf(x[3]) |-> FunOf(x[3])[s][2]]]],
               reg |-> [s \in DOMAIN FunOf(j.reg) |->
                   LET x == FunOf(j.reg)[s] IN [name |-> x[2], symbol |-> x[3], supply |-> x[4]]]]
Identified(j) == \A i \in Idx(j.reg) : j.reg[i][5] = TRUE

AllAssets(w) == UNION {DOMAIN w.acct[a].bal : a \in DOMAIN w.acct}
SameBalances(w, v) == \A a \in DOMAIN w.acct \cup DOMAIN v.acct : \A s \in AllAssets(w) \cup AllAssets(v) :
                          Balance(w, a, s) = Balance(v, a, s)
SameBalancesBut(w, v, b) == \A a \in (DOMAIN w.acct \cup DOMAIN v.acct) \ {b} :
                          \A s \in AllAssets(w) \cup AllAssets(v) : Balance(w, a, s) = Balance(v, a, s)
SameNonces(w, v) == \A a \in DOMAIN w.acct \cup DOMAIN v.acct : Acct(w, a).nonce = Acct(v, a).nonce
FeesOf(fees) == {f \in Elems(fees) : f[2] # Zero}

-----------------------------------------------------------------------------
(* C04 *)
Judge(root, world, key, out) ==
    /\ root \in DOMAIN seen => seen[root] = world
    /\ root \notin DOMAIN seen => \A u \in DOMAIN seen : seen[u] # world
    /\ seen' = Put(seen, root, world)
    /\ \A x \in execs : x[1] = key => x[2] = out
    /\ execs' = IF key = <<>> THEN execs ELSE execs \cup {<<key, out>>}
NoJudge == UNCHANGED <<seen, execs>>

-----------------------------------------------------------------------------
TInit == Init /\ l = 1 /\ skip = FALSE /\ rroots = {} /\ seen = EmptyF /\ execs = {}

TReset == /\ Is("reset")
          /\ hist' = EmptyF /\ avail' = {} /\ blk' = NoBlock /\ skip' = FALSE /\ rroots' = {}
          /\ seen' = EmptyF /\ execs' = {}

TGenesis ==
    /\ Is("genesis") /\ ~skip
    /\ LET w == GenesisWorld(E.token, E.alloc)
           full == E.st = "ok" /\ WorldOf(E.world) = w /\ Identified(E.world) /\ E.api = 0
       IN  /\ Focus = "C08" => full
           /\ IF C04
              THEN IF E.st = "ok" THEN Judge(E.root, E.world, <<E.token, E.alloc>>, E.root) ELSE NoJudge
              ELSE NoJudge
           /\ IF C04 \/ (full /\ RootOf(E.root, w))
              THEN /\ hist' = Put(hist, E.root, w) /\ avail' = avail \cup {E.root} /\ skip' = FALSE
              ELSE /\ skip' = TRUE /\ UNCHANGED <<hist, avail>>
           /\ UNCHANGED <<blk, rroots>>

TBegin ==
    /\ Is("begin") /\ ~skip
    /\ IF C04 THEN /\ blk' = [open |-> TRUE, key |-> <<E.root, E.height, E.price, E.cb>>, rcs |-> <<>>]
                   /\ UNCHANGED <<hist, avail>>
       ELSE Begin(E.root, E.height, E.price, E.cb)
    /\ rroots' = {}
    /\ UNCHANGED skip /\ NoJudge

(* the receipt rc of transaction tx, whose specified outcome is o *)
OkRc(rc) == rc.st = "ok"
Ok01(tx, o, rc) ==
    tx.k = "transfer" =>
       /\ o.why \in {"balance", "account"} => rc.res.k = "fail"
       /\ o.ok => rc.res = o.res
Ok05(tx, o, rc) ==
    /\ rc.fee = <<tx.feeAsset, Mul(o.used, blk.price)>>
    /\ o.why = "cycles" => rc.res.k = "fail"
    /\ o.ok => rc.res.k # "fail"
Ok06(tx, o, rc) ==
    /\ rc.i = blk.n + 1
    /\ rc.h = blk.height
    /\ rc.res.k \in {"fail", tx.k}
    /\ o.why = "unsupported" => rc.res.k = "fail"
Ok07(tx, o, rc) ==
    /\ o.why \in {"asset", "exists"} => rc.res.k = "fail"
    /\ (tx.k = "deploy" /\ o.ok) => rc.res = o.res
FullRc(tx, o, rc) == /\ Ok01(tx, o, rc) /\ Ok05(tx, o, rc) /\ Ok06(tx, o, rc) /\ Ok07(tx, o, rc)
                     /\ (rc.res.k = "fail") = ~o.ok

TTx ==
    /\ Is("tx") /\ ~skip
    /\ IF C04 THEN /\ blk' = [blk EXCEPT !.key = Append(@, E.tx), !.rcs = Append(@, E.rc)]
                   /\ UNCHANGED <<hist, avail, skip, rroots>>
       ELSE LET o == Outcome(blk.world, E.tx)
                ok == OkRc(E.rc) IN
            /\ Tx(E.tx)
            /\ ok => CASE Focus = "C01" -> Ok01(E.tx, o, E.rc)
                       [] Focus = "C05" -> Ok05(E.tx, o, E.rc)
                       [] Focus = "C06" -> Ok06(E.tx, o, E.rc)
                       [] Focus = "C07" -> Ok07(E.tx, o, E.rc)
                       [] OTHER -> TRUE
            /\ skip' = IF ok THEN ~FullRc(E.tx, o, E.rc) ELSE (Focus \notin {"C06", "C08"})
            /\ rroots' = IF ok THEN rroots \cup {E.rc.root} ELSE rroots
    /\ NoJudge

TEnd ==
    /\ Is("end") /\ ~skip
    /\ IF C04
       THEN /\ blk' = NoBlock
            /\ UNCHANGED <<hist, avail, skip, rroots>>
            /\ IF E.st = "ok" THEN Judge(E.root, E.world, blk.key, <<E.root, E.fees, blk.rcs>>) ELSE NoJudge
       ELSE LET w == EndWorld
                v == WorldOf(E.world)
                good == E.st = "ok"
                full == good /\ v = w /\ Identified(E.world) /\ E.api = 0 /\ FeesOf(E.fees) = FeesOf(blk.fees)
                        /\ E.nrc = blk.n /\ RootOf(E.root, w) IN
            /\ Focus = "C06" => good /\ E.nrc = blk.n /\ rroots \subseteq {E.root}
            /\ Focus = "C08" => E.st # "noroot"
            /\ good => CASE Focus = "C01" -> SameBalances(v, w) /\ E.api = 0
                         [] Focus = "C02" -> SameBalancesBut(v, w, blk.cb) /\ SameNonces(v, w) /\ v.reg = w.reg
                         [] Focus = "C03" -> SameNonces(v, w)
                         [] Focus = "C05" -> /\ FeesOf(E.fees) = FeesOf(blk.fees)
                                             /\ Cardinality(FeesOf(E.fees)) = Cardinality({i \in Idx(E.fees) : E.fees[i][2] # Zero})
                                             /\ \A s \in AllAssets(v) \cup AllAssets(w) : Balance(v, blk.cb, s) = Balance(w, blk.cb, s)
                         [] Focus = "C07" -> v.reg = w.reg /\ Identified(E.world)
                         [] OTHER -> TRUE
            /\ blk' = NoBlock /\ rroots' = {}
            /\ skip' = ~full
            /\ IF full THEN hist' = Put(hist, E.root, w) /\ avail' = avail \cup {E.root}
               ELSE UNCHANGED <<hist, avail>>
            /\ NoJudge

(* the state under an earlier root, read again *)
TRead ==
    /\ Is("read") /\ ~skip
    /\ IF C04 THEN /\ (E.root \in DOMAIN seen => seen[E.root] = E.world) /\ E.api = 0
       ELSE Focus \in {"C01", "C03", "C07"} => (E.root \in DOMAIN hist =>
                /\ Focus = "C01" => SameBalances(WorldOf(E.world), hist[E.root])
                /\ Focus = "C03" => SameNonces(WorldOf(E.world), hist[E.root])
                /\ Focus = "C07" => WorldOf(E.world).reg = hist[E.root].reg)
    /\ UNCHANGED <<hist, avail, blk, skip, rroots>> /\ NoJudge

TNewDb == /\ Is("newdb") /\ ~skip
          /\ IF C04 THEN UNCHANGED <<hist, avail, blk>> ELSE NewDb
          /\ UNCHANGED <<skip, rroots>> /\ NoJudge

TStop == Is("stop") /\ ~skip /\ skip' = TRUE /\ UNCHANGED <<hist, avail, blk, rroots>> /\ NoJudge

TSkip == /\ skip /\ More /\ E.e # "reset" /\ l' = l + 1 /\ Unjudged
         /\ UNCHANGED <<hist, avail, blk, skip, rroots>> /\ NoJudge

TNext == TReset \/ TGenesis \/ TBegin \/ TTx \/ TEnd \/ TRead \/ TNewDb \/ TStop \/ TSkip
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
