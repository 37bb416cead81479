-------------------------------- MODULE Native --------------------------------
(* The native account and bank contracts, called directly on staged state:    *)
(* every call works on the working world, revert returns to the last stash,   *)
(* stash keeps, commit makes the stashed world a root.                        *)
EXTENDS Ledger

VARIABLES n        \* [open, work, stash, base, dirty]: dirty after a failed call, until reverted
nvars == <<n, hist, avail, blk>>
NClosed == [open |-> FALSE, work |-> EmptyWorld, stash |-> EmptyWorld, dirty |-> FALSE]
NInit == Init /\ n = NClosed

Keep == UNCHANGED <<avail, blk>>
NNew == n' = [NClosed EXCEPT !.open = TRUE] /\ UNCHANGED hist /\ Keep
NOpen(t) == t \in DOMAIN hist /\ n' = [open |-> TRUE, work |-> hist[t], stash |-> hist[t], dirty |-> FALSE] /\ UNCHANGED hist /\ Keep
NRevert == n.open /\ n' = [n EXCEPT !.work = n.stash, !.dirty = FALSE] /\ UNCHANGED hist /\ Keep
NStash == n.open /\ ~n.dirty /\ n' = [n EXCEPT !.stash = n.work] /\ UNCHANGED hist /\ Keep
NCommit(t) == /\ n.open /\ ~n.dirty /\ RootOf(t, n.stash) /\ hist' = Put(hist, t, n.stash)
              /\ UNCHANGED n /\ Keep

(* calls: CallOutcome(w, c) = [ok, world, val] *)
Ok(w, v) == [ok |-> TRUE, world |-> w, val |-> v]
Err(w) == [ok |-> FALSE, world |-> w, val |-> <<>>]
CanPay(w, a, s, v) == Has(Acct(w, a).bal, s) /\ VGe(Balance(w, a, s), v)
InfoOf(s, c) == [name |-> c.name, symbol |-> c.symbol, supply |-> c.supply]
CallOutcome(w, c) ==
    CASE c.op = "add" -> Ok(Credit(w, c.a, c.s, c.v), <<>>)
      [] c.op = "sub" -> IF CanPay(w, c.a, c.s, c.v) THEN Ok(Debit(w, c.a, c.s, c.v), <<>>) ELSE Err(w)
      [] c.op = "transfer" -> IF CanPay(w, c.a, c.s, c.v) /\ c.used + TransferCost <= c.limit
                              THEN Ok(Credit(Debit(w, c.a, c.s, c.v), c.to, c.s, c.v), <<c.used + TransferCost>>) ELSE Err(w)
      [] c.op = "transfer0" -> Err(w)                       \* a call that carries no asset
      [] c.op = "create" -> Ok(CreateAcct(w, c.a), <<Acct(w, c.a).nonce>>)
      [] c.op = "inc" -> Ok(IncNonce(w, c.a), <<>>)
      [] c.op = "bal" -> IF Has(w.acct, c.a) THEN Ok(w, <<Balance(w, c.a, c.s)>>) ELSE Err(w)
      [] c.op = "nonce" -> IF Has(w.acct, c.a) THEN Ok(w, <<w.acct[c.a].nonce>>) ELSE Err(w)
      [] c.op = "register" -> IF ~Has(w.reg, c.s) /\ c.kind = "asset" /\ c.used + DeployCost <= c.limit
                              THEN Ok(Register(w, c.s, InfoOf(c.s, c)), <<c.used + DeployCost>>) ELSE Err(w)
      [] c.op = "asset" -> IF Has(w.reg, c.s) THEN Ok(w, <<w.reg[c.s]>>) ELSE Err(w)
ReadOnly(c) == c.op \in {"bal", "nonce", "asset"}
Call(c) == /\ n.open /\ ~n.dirty
           /\ LET o == CallOutcome(n.work, c) IN
              n' = [n EXCEPT !.work = o.world, !.dirty = ~o.ok /\ ~ReadOnly(c)]
           /\ UNCHANGED hist /\ Keep

(* the listed properties *)
NNoOverdraft == \A a \in DOMAIN n.work.acct : \A s \in DOMAIN n.work.acct[a].bal : VGe(n.work.acct[a].bal[s], Zero)
NRootsInjective == RootsInjective
NHistoryKept == [][\A t \in DOMAIN hist : Has(hist', t) /\ hist'[t] = hist[t]]_nvars
=============================================================================
