------------------------------ MODULE NativeTrace -----------------------------
(* Every recorded call of a native contract is a step of Native.  The result  *)
(* of a call and the world under a root are compared in the fields of FOCUS;  *)
(* a difference in another property's field ends the judging of a behaviour.  *)
EXTENDS Native, TraceLib
VARIABLE skip
tvars == <<n, hist, avail, blk, l, skip>>

FunOf(s) == [k \in {s[i][1] : i \in Idx(s)} |-> s[CHOOSE i \in Idx(s) : s[i][1] = k]]
WorldOf(j) == [acct |-> [a \in {j.acct[i][1] : i \in Idx(j.acct)} |->
                   LET x == FunOf(j.acct)[a] IN
                   [nonce |-> x[2], bal |-> [s \in DOMAIN FunOf(x[3]) |-> FunOf(x[3])[s][2]]]],
               reg |-> [s \in DOMAIN FunOf(j.reg) |->
                   LET x == FunOf(j.reg)[s] IN [name |-> x[2], symbol |-> x[3], supply |-> x[4]]]]
AllAssets(w) == UNION {DOMAIN w.acct[a].bal : a \in DOMAIN w.acct}
SameBalances(w, v) == \A a \in DOMAIN w.acct \cup DOMAIN v.acct : \A s \in AllAssets(w) \cup AllAssets(v) :
                          Balance(w, a, s) = Balance(v, a, s)
SameNonces(w, v) == \A a \in DOMAIN w.acct \cup DOMAIN v.acct : Acct(w, a).nonce = Acct(v, a).nonce

Mine(c) == CASE Focus = "C01" -> c.op \in {"add", "sub", "transfer", "transfer0", "bal"}
             [] Focus = "C03" -> c.op \in {"inc", "nonce"}
             [] Focus = "C05" -> c.op \in {"transfer", "register"}
             [] Focus = "C07" -> c.op \in {"register", "asset"}
             [] OTHER -> TRUE
Judge(good, mine) == /\ mine => good
                     /\ skip' = ~good

TInit == NInit /\ l = 1 /\ skip = FALSE
TReset == Is("reset") /\ n' = NClosed /\ hist' = EmptyF /\ skip' = FALSE /\ UNCHANGED <<avail, blk>>
TNew == Is("new") /\ ~skip /\ NNew /\ UNCHANGED skip
TOpen == Is("open") /\ ~skip /\ NOpen(E.root) /\ Judge(E.st = "ok", Focus = "C09")
TRevert == Is("revert") /\ ~skip /\ NRevert /\ Judge(E.st = "ok", TRUE)
TStash == Is("stash") /\ ~skip /\ NStash /\ Judge(E.st = "ok", TRUE)
TCall == Is("call") /\ ~skip /\ Call(E.c)
         /\ LET o == CallOutcome(n.work, E.c) IN Judge((E.st = "ok") = o.ok /\ E.st # "panic" /\ (o.ok => E.val = o.val), Mine(E.c))
(* a commit, and the world under its root read from the database *)
TCommit == /\ Is("commit") /\ ~skip /\ n.open /\ ~n.dirty
           /\ UNCHANGED n /\ Keep
           /\ LET v == WorldOf(E.world)
                  w == n.stash
                  good == E.st = "ok" /\ v = w /\ RootOf(E.root, w) IN
              /\ (Focus = "C01" /\ E.st = "ok") => SameBalances(v, w)
              /\ (Focus = "C03" /\ E.st = "ok") => SameNonces(v, w)
              /\ (Focus = "C07" /\ E.st = "ok") => v.reg = w.reg
              /\ (Focus = "C05" /\ E.st = "ok") => TRUE
              /\ Focus = "C09" => good
              /\ skip' = ~good
              /\ hist' = IF good THEN Put(hist, E.root, w) ELSE hist
TStop == Is("stop") /\ ~skip /\ skip' = TRUE /\ UNCHANGED nvars
TSkip == /\ skip /\ More /\ E.e # "reset" /\ l' = l + 1 /\ Unjudged /\ UNCHANGED <<n, hist, avail, blk, skip>>
TNext == TReset \/ TNew \/ TOpen \/ TRevert \/ TStash \/ TCall \/ TCommit \/ TStop \/ TSkip
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
