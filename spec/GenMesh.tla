------------------------------- MODULE GenMesh --------------------------------
EXTENDS Mesh, TLC, Json, SequencesExt
CONSTANTS Mode, MaxKills, Sizes
VARIABLES ops, kills, phase
gvars == <<n, boots, up, ops, kills, phase>>

Out(o) == ops' = Append(ops, o)
(* one at random, or every one, or some one *)
One(S) == IF Mode = "random" THEN {RandomElement(S)} ELSE S
Pick(S) == {IF Mode = "random" THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE}
Pairs == {<<i, j>> \in (0..3) \X (0..3) : i # j}
Linked(k, b) == LET E(i, j) == j \in b[i + 1] \/ i \in b[j + 1]
                    R[m \in 0..k, S \in SUBSET (0..(k - 1))] == IF m = 0 THEN S ELSE R[m - 1, S \cup {j \in 0..(k - 1) : \E i \in S : E(i, j)}]
                IN R[k, {0}] = 0..(k - 1)
Boots(k) == {b \in [1..k -> SUBSET (0..(k - 1))] : (\A i \in 1..k : i - 1 \notin b[i]) /\ Linked(k, b)}
OpNet(k, b) == [op |-> "net", n |-> k, boots |-> [i \in 1..k |-> SetToSeq(b[i])], max |-> 10]
OpStart(i) == [op |-> "start", i |-> i]
OpKill(i) == [op |-> "kill", i |-> i]
OpSettle == [op |-> "settle", links |-> SetToSeq(Links)]
OpAll(i, end, size) == [op |-> "send", i |-> i, how |-> "all", to |-> <<>>, want |-> SetToSeq(Must(i)), end |-> end, size |-> size, ok |-> TRUE, links |-> SetToSeq(Links)]
OpSome(i, to, end, size) == [op |-> "send", i |-> i, how |-> "some", to |-> to, want |-> SetToSeq(Must(i) \cap Rng(to)), end |-> end, size |-> size,
                             ok |-> ~Fails(i, Rng(to)), links |-> SetToSeq(Links)]
OpAsk(i, to, size) == [op |-> "ask", i |-> i, to |-> to, size |-> size, links |-> SetToSeq(Links)]

GInit == n = 0 /\ boots = <<>> /\ up = {} /\ ops = <<>> /\ kills = 0 /\ phase = "net"
(* everybody starts, in any order *)
Begin == /\ phase = "net" /\ phase' = "start" /\ UNCHANGED kills
         /\ IF Mode = "random" THEN \E k \in {RandomElement({3, 4})} : \E b \in {RandomElement(Boots(k))} : Net(k, b) /\ Out(OpNet(k, b))
            ELSE \E b \in Boots(2) : Net(2, b) /\ Out(OpNet(2, b))
Up(i) == Start(i) /\ Out(OpStart(i)) /\ UNCHANGED kills /\ phase' = IF up' = Node THEN "talk" ELSE phase
Starting == /\ phase = "start"
            /\ \E i \in One(Node \ up) : Up(i)
(* definite targets: surely connected, or surely not *)
Definite(i) == Must(i) \cup (Node \ up)
Talk == /\ phase = "talk" /\ phase' = "next" /\ UNCHANGED <<n, boots, up, kills>>
        /\ \E i \in Pick(up), j \in Pick(up), e \in Pick({1, 2}), s1 \in Pick(Sizes), s2 \in Pick(Sizes), s3 \in Pick(Sizes) :
           \E to \in IF Definite(j) = {} THEN {{}} ELSE Pick(SUBSET Definite(j) \ {{}}) :
              LET m == SetToSeq(Must(i))
              IN ops' = ops \o <<OpSettle, OpAll(i, e, s1)>> \o (IF to = {} THEN <<>> ELSE <<OpSome(j, SetToSeq(to), 3 - e, s2)>>)
                            \o (IF m = <<>> THEN <<>> ELSE <<OpAsk(i, m \o m \o m, s3)>>)
Drop(i) == Kill(i) /\ Out(OpKill(i)) /\ kills' = kills + 1 /\ phase' = IF up' = {} THEN "next" ELSE "talk"
Next2 == /\ phase = "next"
         /\ \/ /\ kills < MaxKills /\ up = Node /\ \E i \in One(up) : Drop(i)
            \/ /\ up # Node /\ \E i \in One(Node \ up) : Up(i)
            \/ /\ up = Node /\ kills = MaxKills /\ phase' = "done" /\ UNCHANGED <<n, boots, up, ops, kills>>
GNext == Begin \/ Starting \/ Talk \/ Next2
GSpec == GInit /\ [][GNext]_gvars
PrintAll == (phase' = "done" /\ phase # "done") => PrintT("BEH " \o ToJson(ops))

(* what the specification promises *)
Symmetric == \A i, j \in up : j \in Must(i) <=> i \in Must(j)
Sound == \A i \in up : Must(i) \subseteq May(i) /\ i \notin May(i)
Whole == phase # "net" /\ up = Node => Reach({0}) = Node
Decided == \A i \in up : \A to \in SUBSET Definite(i) : Fails(i, to) # Succeeds(i, to)
=============================================================================
