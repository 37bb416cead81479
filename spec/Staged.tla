-------------------------------- MODULE Staged --------------------------------
(* The staged contract state of the executor: over a trie that starts at some *)
(* root a stash of writes that will be committed and over it a cache of       *)
(* writes that may still be reverted.  Several adapters (handles) may be open *)
(* over the same database.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES hs,      \* handle -> [open, cache, stash, trie]
          hist     \* root token -> content committed under it
svars == <<hs, hist>>

EmptyF == <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
None == -1

Closed == [open |-> FALSE, cache |-> EmptyF, stash |-> EmptyF, trie |-> EmptyF]
Opened(c) == [open |-> TRUE, cache |-> EmptyF, stash |-> EmptyF, trie |-> c]
View(s) == Over(s.cache, Over(s.stash, s.trie))
Read(s, k) == IF k \in DOMAIN View(s) THEN View(s)[k] ELSE None

(* equal roots exactly for equal contents *)
RootOf(t, c) == /\ t \in DOMAIN hist => hist[t] = c
                /\ t \notin DOMAIN hist => \A u \in DOMAIN hist : hist[u] # c

Init(H) == hs = [h \in H |-> Closed] /\ hist = EmptyF

Set(h, s) == hs' = [hs EXCEPT ![h] = s]
New(h) == Set(h, Opened(EmptyF)) /\ UNCHANGED hist
Open(h, t) == t \in DOMAIN hist /\ Set(h, Opened(hist[t])) /\ UNCHANGED hist
Write(h, k, v) == hs[h].open /\ Set(h, [hs[h] EXCEPT !.cache = Put(@, k, v)]) /\ UNCHANGED hist
Revert(h) == hs[h].open /\ Set(h, [hs[h] EXCEPT !.cache = EmptyF]) /\ UNCHANGED hist
Stash(h) == /\ hs[h].open
            /\ Set(h, [hs[h] EXCEPT !.stash = Over(hs[h].cache, @), !.cache = EmptyF])
            /\ UNCHANGED hist
Committed(h) == Over(hs[h].stash, hs[h].trie)
Commit(h, t) == /\ hs[h].open /\ RootOf(t, Committed(h))
                /\ Set(h, [hs[h] EXCEPT !.trie = Committed(h), !.stash = EmptyF])
                /\ hist' = Put(hist, t, Committed(h))
Restart == hs' = [h \in DOMAIN hs |-> Closed] /\ UNCHANGED hist

(* the listed guarantees *)
HistoryKept == [][\A t \in DOMAIN hist : t \in DOMAIN hist' /\ hist'[t] = hist[t]]_svars
RootsInjective == \A t, u \in DOMAIN hist : hist[t] = hist[u] => t = u
=============================================================================
