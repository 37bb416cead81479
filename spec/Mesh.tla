--------------------------------- MODULE Mesh ---------------------------------
(* Several real nodes. Each has a list of bootstrap nodes; nodes start, die    *)
(* and start again in any order. What a node may count on: it is connected     *)
(* with every running node that one of the two has as bootstrap. With other    *)
(* running nodes it may become connected, by discovery.                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES n, boots, up
mvars == <<n, boots, up>>

Node == 0..(n - 1)
Rng(q) == {q[i] : i \in DOMAIN q}
Edge(i, j) == i # j /\ (j \in boots[i + 1] \/ i \in boots[j + 1])
Must(i) == {j \in up : Edge(i, j)}
May(i) == up \ {i}
Links == {<<i, j>> \in up \X up : Edge(i, j)}

Net(k, b) == n' = k /\ boots' = b /\ up' = {}
Start(i) == i \in Node \ up /\ up' = up \cup {i} /\ UNCHANGED <<n, boots>>
Kill(i) == i \in up /\ up' = up \ {i} /\ UNCHANGED <<n, boots>>

(* a group of nodes such that every two are joined by links *)
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {j \in up : \E i \in S : Edge(i, j)} IN IF T = S THEN S ELSE Reach(T)

(* who a message of i has to reach, and who it may reach *)
Wanted(i, all, to) == IF all THEN Must(i) ELSE Must(i) \cap to
Allowed(i, all, to) == IF all THEN May(i) ELSE May(i) \cap to
(* a multicast fails exactly when somebody named is not connected; unknown for those who may be *)
Fails(i, to) == to \ May(i) # {}
Succeeds(i, to) == to \subseteq Must(i)
=============================================================================
