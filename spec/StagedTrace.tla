------------------------------ MODULE StagedTrace -----------------------------
(* Every recorded operation on contract state is a step of Staged, and after  *)
(* each one every key, read through the adapter, has the specified value.     *)
EXTENDS Staged, TraceLib
tvars == <<hs, hist, l>>

FunOf(s) == [k \in {s[i][1] : i \in Idx(s)} |-> s[CHOOSE i \in Idx(s) : s[i][1] = k][2]]
(* what the adapter answered for every key: <<key, contains, value or -1>> *)
Agrees(s) == \A i \in Idx(E.reads) : LET r == E.reads[i] IN
                 r[3] = Read(s, r[1]) /\ r[2] = (Read(s, r[1]) # None)
Good == E.st = "ok" /\ Agrees(hs'[E.h])

TInit == Init({"A", "B"}) /\ l = 1
TReset == Is("reset") /\ hs' = [h \in DOMAIN hs |-> Closed] /\ hist' = EmptyF
TNew == Is("new") /\ New(E.h) /\ Good
TOpen == Is("open") /\ Open(E.h, E.root) /\ Good
TIns == Is("ins") /\ Write(E.h, E.k, E.v) /\ Good
TRevert == Is("revert") /\ Revert(E.h) /\ Good
TStash == Is("stash") /\ Stash(E.h) /\ Good
TCommit == Is("commit") /\ Commit(E.h, E.root) /\ Good
TRestart == Is("restart") /\ Restart
(* everything under a root, read from the database *)
TUnder == Is("under") /\ E.root \in DOMAIN hist /\ E.st = "ok" /\ FunOf(E.content) = hist[E.root] /\ UNCHANGED svars
TNext == TReset \/ TNew \/ TOpen \/ TIns \/ TRevert \/ TStash \/ TCommit \/ TRestart \/ TUnder
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
