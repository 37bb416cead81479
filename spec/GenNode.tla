------------------------------- MODULE GenNode --------------------------------
EXTENDS Node, Json, SequencesExt
CONSTANTS Mode, MaxSteps, MaxDown
VARIABLES ops, steps, phase, next, dirty
gvars == <<nvars, ops, steps, phase, next, dirty>>
(* dirty: somebody started, or was killed, since the links were last seen to be there *)

One(S) == IF Mode = "random" THEN {RandomElement(S)} ELSE S
Out(o) == ops' = ops \o o
All(k) == [i \in 1..k |-> SetToSeq((0..(k - 1)) \ {i - 1})]
Pairs(S) == SetToSeq({p \in S \X S : p[1] # p[2]})
Settle(S) == [op |-> "settle", links |-> Pairs(S)]
Allocs == IF Mode = "random" THEN {<<1000000, 500, 0>>, <<100, 0, 0>>, <<5, 5, 5>>} ELSE {<<100, 5, 0>>}

GInit == NInit /\ ops = <<>> /\ steps = 0 /\ phase = "net" /\ next = 1 /\ dirty = TRUE
Begin == /\ phase = "net" /\ phase' = "start" /\ UNCHANGED <<steps, next, dirty>>
         /\ \E k \in One(IF Mode = "random" THEN {2, 3, 3} ELSE {2, 3}), a \in One(Allocs), p \in One(IF Mode = "random" THEN {0, 1, 7} ELSE {3}) :
              Net(k, p, a) /\ Out(<<[op |-> "net", n |-> k, boots |-> All(k), alloc |-> a, price |-> p, light |-> FALSE]>>)
GStart(i) == Start(i, CHOOSE h \in ht[i] : TRUE) /\ Out(<<[op |-> "start", i |-> i]>>) /\ dirty' = TRUE
Starting == /\ phase = "start" /\ UNCHANGED <<steps, next>>
            /\ \E i \in One(Nodes \ up) : GStart(i)
            /\ phase' = IF up' = Nodes THEN "run" ELSE phase
Links == /\ phase \in {"run", "end"} /\ dirty /\ (phase = "end" => up = Nodes)
         /\ dirty' = FALSE /\ Out(<<Settle(up)>>)
         /\ UNCHANGED <<nvars, steps, phase, next>>
Busy == phase = "run" /\ ~dirty /\ steps < MaxSteps
Step == steps' = steps + 1 /\ UNCHANGED phase

(* a transaction: new, known, or bad *)
New(from, to, amt, limit, kind) == [id |-> next, from |-> from, to |-> to, amt |-> amt, limit |-> limit, kind |-> kind]
Submit == /\ Busy /\ Step /\ UNCHANGED dirty
          /\ \E i \in One(up) :
             \/ \E f \in One({0, 1, 2}), t \in One({0, 1, 2}), v \in One(IF Mode = "random" THEN {1, 3, 50} ELSE {3}),
                   m \in One(IF Mode = "random" THEN {TransferCost - 1, TransferCost, 1000} ELSE {1000}),
                   k \in One(IF Mode = "random" THEN {"ok", "ok", "ok", "chain", "far"} ELSE {"ok"}) :
                LET x == New(f, t, v, m, k)
                IN  /\ Mode = "random" \/ (f = 0 /\ t = 1)
                    /\ next' = next + 1 /\ Out(<<[op |-> "submit", i |-> i, tx |-> x]>>)
                    /\ IF MustTake(i, x) THEN Take(i, x) ELSE UNCHANGED nvars
             \/ /\ Mode = "random" /\ DOMAIN table # {} /\ UNCHANGED next
                /\ \E x \in One(DOMAIN table) :
                     /\ Out(<<[op |-> "submit", i |-> i, tx |-> table[x]]>>)
                     /\ IF MustRefuse(i, table[x]) \/ x \in Knows(i) THEN UNCHANGED nvars ELSE Take(i, table[x])
(* several at once: what may be one's own transactions, gossip, and money that is not there until an earlier one came *)
Several == RandomElement([1..3 -> up \X (0..2) \X (0..2) \X {1, 3, 50}])
Made(q) == [k \in 1..3 |-> [New(q[k][2], q[k][3], q[k][4], 1000, "ok") EXCEPT !.id = next + k - 1]]
Handed(q, S, own1, heard1) ==
    LET X == Made(q)
        By(i) == {X[k].id : k \in {k \in 1..3 : q[k][1] = i}}
        All3 == {X[k].id : k \in 1..3}
    IN  /\ next' = next + 3
        /\ table' = [x \in DOMAIN table \cup All3 |-> IF x \in All3 THEN X[x - next + 1] ELSE table[x]]
        /\ own' = [i \in Nodes |-> own1[i] \cup By(i)]
        /\ heard' = [i \in Nodes |-> heard1[i] \cup (IF i \in S THEN All3 \ By(i) ELSE {})]
Says(q) == [k \in 1..3 |-> [op |-> "submit", i |-> q[k][1], tx |-> Made(q)[k]]]
Burst == /\ Busy /\ Step /\ Mode = "random" /\ UNCHANGED dirty
         /\ \E q \in {Several} : Handed(q, up, own, heard) /\ Out(Says(q))
         /\ UNCHANGED <<n, up, price, world0, ht, chain>>
(* somebody is not there while transactions are handed in, and is asked to vote about them *)
Missed == /\ Busy /\ Step /\ Mode = "random" /\ Behind = {} /\ Cardinality(up) > 1 /\ dirty' = TRUE
          /\ \E v \in One(up) : \E q \in {[k \in 1..3 |-> <<RandomElement(up \ {v}), RandomElement(0..2), RandomElement(0..2), 3>>]} :
               /\ Handed(q, up \ {v}, [own EXCEPT ![v] = {}], [j \in Nodes |-> IF j = v THEN {} ELSE heard[j] \ own[v]])
               /\ Out(<<[op |-> "rest"], [op |-> "kill", i |-> v]>> \o Says(q) \o <<[op |-> "start", i |-> v]>>)
          /\ UNCHANGED <<n, up, price, world0, ht, chain>>
Then(by, q) == [i \in Nodes |-> IF i \in up THEN {Top + 1} ELSE ht[i]]
(* blocks at a level network; maybe somebody dies over it *)
Round == /\ Busy /\ Behind = {} /\ Step /\ UNCHANGED <<next, dirty>>
         /\ \E by \in One(up) :
              /\ Block(by, SetToSeq(Knows(by)), Then(by, Knows(by)))
              /\ Out(<<[op |-> "rest"], [op |-> "round", by |-> by]>>)
(* at a moment, or at a write to its databases; somebody who is behind dies catching up *)
Deaths == IF Mode = "random" THEN {[after |-> us, die |-> 0] : us \in {0, 4000, 20000}} \cup {[after |-> 0, die |-> k] : k \in 1..24}
          ELSE {[after |-> 0, die |-> 1]}
Die == /\ Busy /\ Step /\ UNCHANGED next /\ Cardinality(Nodes \ up) < MaxDown /\ Level # {}
       /\ \E by \in One(Level) : up # {by} /\ \E v \in One(IF Behind = {} THEN up \ {by} ELSE Behind) : \E d \in One(Deaths) :
            LET q == SetToSeq(Knows(by))
                S == Knows(by)
                lost == own[v] \ S
            IN  /\ Out(<<[op |-> "rest"], [op |-> "round", by |-> by, victim |-> v, after |-> d.after, die |-> d.die]>>)
                /\ chain' = Append(chain, [by |-> by, txs |-> q])
                /\ ht' = [i \in Nodes |-> IF i = v THEN (CHOOSE k \in ht[v] : \A m \in ht[v] : k <= m)..(Top + 1)
                                          ELSE IF i \in up THEN {Top + 1} ELSE ht[i]]
                /\ up' = up \ {v}
                /\ own' = [i \in Nodes |-> IF i = v THEN {} ELSE own[i] \ S]
                /\ heard' = [i \in Nodes |-> IF i = v THEN {} ELSE heard[i] \ (S \cup lost)]
                /\ UNCHANGED <<n, price, world0, table, dirty>>
(* dies when it starts *)
Stillborn == /\ Mode = "random" /\ phase \in {"start", "run"} /\ (phase = "run" => ~dirty /\ steps < MaxSteps) /\ up # Nodes
             /\ steps' = steps + 1 /\ UNCHANGED <<nvars, phase, next, dirty>>
             /\ \E i \in One(Nodes \ up), k \in One(IF phase = "start" THEN 1..12 ELSE {1}) :
                   Out(<<[op |-> "start", i |-> i, die |-> k]>>)
Drain == /\ phase \in {"run", "end"} /\ ~dirty /\ (phase = "run" => steps < MaxSteps) /\ steps' = steps + 1 /\ Level # {}
         /\ (phase = "end" => Behind # {} \/ \E i \in up : Knows(i) # {})
         /\ UNCHANGED <<next, dirty, phase>>
         /\ \E by \in One(LET K == {i \in Level : Knows(i) # {}} IN IF phase = "end" /\ K # {} THEN K ELSE Level) :
              /\ Block(by, SetToSeq(Knows(by)), Then(by, Knows(by)))
              /\ Out(<<[op |-> "drain", by |-> by, want |-> SetToSeq(Knows(by))]>>)
Down == /\ Busy /\ Step /\ UNCHANGED <<next, dirty>> /\ Cardinality(Nodes \ up) < MaxDown /\ Cardinality(up) > 1
        /\ \E i \in One(IF Behind = {} THEN up ELSE Behind) : Kill(i) /\ Out(<<[op |-> "rest"], [op |-> "kill", i |-> i]>>)
(* everybody dies and comes back with what they have *)
Blackout == /\ Busy /\ Step /\ UNCHANGED next /\ up = Nodes /\ Mode = "random"
            /\ LET order == SetToSeq(up)
                   each(o) == [k \in DOMAIN order |-> [op |-> o, i |-> order[k]]]
               IN  Out(<<[op |-> "rest"]>> \o each("kill") \o each("start"))
            /\ own' = [i \in Nodes |-> {}] /\ heard' = [i \in Nodes |-> {}] /\ ht' = [i \in Nodes |-> {CHOOSE k \in ht[i] : TRUE}]
            /\ dirty' = TRUE /\ UNCHANGED <<n, up, price, world0, chain, table>>
Again == /\ phase = "run" /\ ~dirty /\ steps < MaxSteps /\ Step /\ UNCHANGED next /\ up # Nodes
         /\ \E i \in One(Nodes \ up) : GStart(i)
(* the end: all run, all is committed, everybody is asked *)
Ending == /\ phase = "run" /\ ~dirty /\ steps = MaxSteps /\ phase' = "end" /\ UNCHANGED <<nvars, ops, steps, next, dirty>>
EndStart == /\ phase = "end" /\ UNCHANGED <<steps, phase, next>> /\ \E i \in One(Nodes \ up) : GStart(i)
Done == /\ phase = "end" /\ up = Nodes /\ ~dirty /\ Behind = {} /\ \A i \in up : Knows(i) = {}
        /\ phase' = "done" /\ Out(<<[op |-> "look"]>>) /\ UNCHANGED <<nvars, steps, next, dirty>>
GNext == Begin \/ Starting \/ Links \/ Submit \/ Burst \/ Missed \/ Round \/ Die \/ Stillborn \/ Drain \/ Down \/ Blackout \/ Again \/ Ending \/ EndStart \/ Done
GSpec == GInit /\ [][GNext]_gvars
PrintAll == (phase' = "done" /\ phase # "done") => PrintT("BEH " \o ToJson(ops'))
Seen == <<nvars, steps, phase, next, dirty>>
GrowsG == [][phase # "net" => SubSeq(chain', 1, Len(chain)) = chain]_gvars
=============================================================================
