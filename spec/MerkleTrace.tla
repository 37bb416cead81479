------------------------------ MODULE MerkleTrace ------------------------------
(* Roots must fit, and the recorded proofs are folded here, with the hash      *)
(* function as the table of the pairs that occurred (E.h).                     *)
EXTENDS Merkle, TraceLib
tvars == <<roots, l>>

TInit == Init /\ l = 1
TReset == Is("reset") /\ roots' = {}

(* the table has every pair that folding needs; equal pairs, equal hashes *)
Hash(a, b) == LET S == {i \in Idx(E.h) : E.h[i][1] = a /\ E.h[i][2] = b} IN IF S = {} THEN "?" ELSE E.h[CHOOSE i \in S : TRUE][3]
RECURSIVE FoldT(_, _, _)
FoldT(x, path, i) == IF i > Len(path) THEN x
                     ELSE FoldT(IF path[i][1] THEN Hash(x, path[i][2]) ELSE Hash(path[i][2], x), path, i + 1)
(* E.proofs: position (from 0), there is one, path; E.try: elements to try at each position *)
ProofOk(p) == LET i == p[1] + 1 IN
              IF i > Len(E.xs) THEN ~p[2]
              ELSE /\ p[2]
                   /\ FoldT(E.toks[i], p[3], 1) = E.root
                   /\ \A t \in Elems(E.try) : t # E.toks[i] => FoldT(t, p[3], 1) # E.root
TList == /\ Is("list")
         /\ (E.root = "none") <=> (E.xs = <<>>)
         /\ Fits(E.xs, E.root) /\ roots' = roots \cup {<<E.xs, E.root>>}
         /\ 0..(Len(E.xs) - 1) \subseteq {E.proofs[i][1] : i \in Idx(E.proofs)}
         /\ \A i \in Idx(E.proofs) : ProofOk(E.proofs[i])
TNext == TReset \/ TList
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
