------------------------------ MODULE GenStaged -------------------------------
EXTENDS Staged, Json
CONSTANTS Mode, MaxOps, Keys, Vals, Handles, MaxRoots
VARIABLES ops, done
gvars == <<hs, hist, ops, done>>
view == <<hs, hist>>

NextTok(c) == IF \E t \in DOMAIN hist : hist[t] = c THEN CHOOSE t \in DOMAIN hist : hist[t] = c
              ELSE "r" \o ToString(Cardinality(DOMAIN hist) + 1)
Op(o, h) == [op |-> o, h |-> h]

GInit == Init(Handles) /\ ops = <<>> /\ done = FALSE
Fresh(c) == (\E t \in DOMAIN hist : hist[t] = c) \/ Cardinality(DOMAIN hist) < MaxRoots
Step(h) ==
    \/ ~hs[h].open /\ New(h) /\ ops' = Append(ops, Op("new", h))
    \/ \E t \in DOMAIN hist : Open(h, t) /\ ops' = Append(ops, Op("open", h) @@ [root |-> t])
    \/ \E k \in Keys, v \in Vals : Write(h, k, v) /\ ops' = Append(ops, Op("ins", h) @@ [k |-> k, v |-> v])
    \/ Revert(h) /\ ops' = Append(ops, Op("revert", h))
    \/ Stash(h) /\ ops' = Append(ops, Op("stash", h))
    \/ hs[h].open /\ Fresh(Committed(h)) /\ Commit(h, NextTok(Committed(h))) /\ ops' = Append(ops, Op("commit", h))
SmallNext == Mode = "small" /\ Len(ops) < MaxOps /\ (\E h \in Handles : Step(h)) /\ UNCHANGED done

(* random: one operation per step, chosen with weights *)
Pick(seq) == seq[RandomElement(1..Len(seq))]
RandNext ==
    /\ Mode = "random" /\ Len(ops) < MaxOps /\ UNCHANGED done
    /\ \E h \in {RandomElement(Handles)} : \E k \in {RandomElement(Keys)}, v \in {RandomElement(Vals)},
         c \in {IF hs[h].open THEN Pick(<<"ins", "ins", "ins", "ins", "revert", "stash", "stash", "commit", "commit", "open", "restart">>)
                ELSE Pick(<<"new", "open", "open", "open">>)},
         t \in {IF hist = EmptyF THEN "" ELSE RandomElement(DOMAIN hist)} :
         CASE c = "ins" -> Write(h, k, v) /\ ops' = Append(ops, Op("ins", h) @@ [k |-> k, v |-> v])
           [] c = "revert" \/ (c = "restart" /\ Len(ops) % 3 # 0) -> Revert(h) /\ ops' = Append(ops, Op("revert", h))
           [] c = "stash" -> Stash(h) /\ ops' = Append(ops, Op("stash", h))
           [] c = "commit" -> Commit(h, NextTok(Committed(h))) /\ ops' = Append(ops, Op("commit", h))
           [] c = "new" \/ (c = "open" /\ hist = EmptyF) -> New(h) /\ ops' = Append(ops, Op("new", h))
           [] c = "open" /\ hist # EmptyF -> Open(h, t) /\ ops' = Append(ops, Op("open", h) @@ [root |-> t])
           [] c = "restart" /\ Len(ops) % 3 = 0 -> Restart /\ ops' = Append(ops, Op("restart", h))
GDone == /\ Mode = "random" /\ Len(ops) = MaxOps /\ ~done
         /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<hs, hist, ops>>
GNext == SmallNext \/ RandNext \/ GDone
(* the listed guarantees about single steps *)
Last == ops'[Len(ops')]
Made(o) == ops' # ops /\ Last.op = o
ViewOf(h) == View(hs[h])
RevertDiscards == [][Made("revert") => LET h == Last.h IN
                       /\ View(hs'[h]) = Over(hs[h].stash, hs[h].trie)
                       /\ \A g \in Handles \ {h} : hs'[g] = hs[g]]_gvars
KeepsView == [][(Made("stash") \/ (Made("commit") /\ DOMAIN hs[Last.h].cache = {})) => View(hs'[Last.h]) = ViewOf(Last.h)]_gvars
CommitsStashed == [][Made("commit") => \E t \in DOMAIN hist' : /\ hist'[t] = hs'[Last.h].trie
                       /\ \A k \in DOMAIN hist'[t] : k \in DOMAIN hs[Last.h].stash \/ (k \in DOMAIN hs[Last.h].trie /\ hist'[t][k] = hs[Last.h].trie[k])]_gvars
PrintAll == (Mode = "small" /\ ops' # ops) => PrintT("BEH " \o ToJson(ops'))
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
