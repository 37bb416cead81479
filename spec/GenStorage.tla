------------------------------ MODULE GenStorage ------------------------------
EXTENDS Storage, Json
CONSTANTS Mode, MaxOps, Hashes, Vals, Heights, Variants, Faults
VARIABLES ops, done, cur
gvars == <<db, pend, ops, done, cur>>
view == <<db, pend, cur>>

Tok(k, v) == "b" \o ToString(k) \o "." \o ToString(v)
Blocks == {Tok(k, v) : k \in Heights, v \in Variants}
HeightFun == [b \in Blocks |-> CHOOSE k \in Heights : \E v \in Variants : b = Tok(k, v)]

GInit == Init /\ ops = <<>> /\ done = FALSE /\ cur = NoBlock
Do(o) == ops' = Append(ops, o)
Blank == [op |-> "", kind |-> "", list |-> <<>>, b |-> "", p |-> 0, h |-> "", at |-> 0, eff |-> FALSE]
Op(o) == [Blank EXCEPT !.op = o]

(* a block that C12 speaks about: above the latest one, or stored again *)
Extends(b) == IF db.latest = NoBlock THEN TRUE
              ELSE IF b = db.latest THEN GetHash(b) = b ELSE HeightFun[db.latest] < HeightFun[b]

(* ---- exhaustive ---- *)
SmallStep ==
    \/ /\ pend = <<>> /\ Len(ops) < MaxOps /\ UNCHANGED done
       /\ \/ \E k \in {"tx", "rc"}, h \in Hashes, v \in Vals : Batch(k, << <<h, v>> >>) /\ Do([Op("batch") EXCEPT !.kind = k, !.list = << <<h, v>> >>]) /\ UNCHANGED cur
          \/ \E b \in Blocks : BlockBegin(b) /\ cur' = b /\ UNCHANGED ops
          \/ \E k \in {"tx", "rc"}, h \in Hashes : Batch(k, << <<h, 0>> >>) /\ Do([Op("remove") EXCEPT !.kind = k, !.h = h]) /\ UNCHANGED cur
          \/ \E p \in Vals : Proof(p) /\ Do([Op("proof") EXCEPT !.p = p]) /\ UNCHANGED cur
    \/ /\ pend # <<>> /\ BlockWrite /\ UNCHANGED done
       /\ IF Len(pend) = 1 THEN Do([Op("block") EXCEPT !.b = cur]) /\ cur' = NoBlock ELSE UNCHANGED <<cur, ops>>
    \/ /\ Faults /\ pend # <<>> /\ Extends(cur) /\ Crash /\ cur' = NoBlock /\ UNCHANGED done
       /\ Do([Op("block") EXCEPT !.b = cur, !.at = 4 - Len(pend)])
SmallNext == Mode = "small" /\ SmallStep
PrintAll == (Mode = "small" /\ ops' # ops) => PrintT("BEH " \o ToJson(ops'))

(* ---- random ---- *)
Pick(seq) == seq[RandomElement(1..Len(seq))]
RList(z) == [i \in 1..Pick(<<0, 1, 1, 2, 3, 5>>) |-> <<RandomElement(Hashes), RandomElement(Vals)>>]
RListR(z) == [i \in 1..Pick(<<1, 2, 3, 4>>) |-> <<RandomElement(Hashes), RandomElement(Vals \cup {0})>>]
RBlock(z) == IF Faults \/ RandomElement(1..3) = 1
             THEN LET up == {b \in Blocks : Extends(b)} IN IF up = {} THEN db.latest ELSE RandomElement(up)
             ELSE RandomElement(Blocks)
RKind(z) == Pick(<<"tx", "rc">>)
RFault(z) == IF Faults THEN Pick(<<0, 0, 1, 2, 3, 4, 7>>) ELSE 0
(* at = n: the n-th write of the operation fails, with (eff) or without having had its effect *)
Effects(b, at, eff) == IF at = 0 \/ at > 3 THEN Stored(db, b)
                       ELSE All(db, SubSeq(Writes(b), 1, IF eff THEN at ELSE at - 1))
RandNext ==
    /\ Mode = "random" /\ Len(ops) < MaxOps /\ UNCHANGED <<done, cur, pend>>
    /\ \E c \in {Pick(<<"batch", "batch", "batch", "mix", "block", "block", "block", "proof", "remove", "restart", "mismatch", "again">>)},
          k \in {RKind(ops)}, l \in {RList(ops)}, m \in {RListR(ops)}, p \in {RandomElement(Vals)}, b \in {RBlock(ops)},
          h \in {RandomElement(Hashes)}, at \in {RFault(ops)}, eff \in {Pick(<<TRUE, FALSE>>)} :
       CASE c = "batch" -> LET a == IF at \in {0, 1} THEN at ELSE 0 IN
                           /\ (IF a = 1 /\ ~eff THEN UNCHANGED db
                               ELSE db' = IF k = "tx" THEN [db EXCEPT !.tx = Apply(@, l)] ELSE [db EXCEPT !.rc = Apply(@, l)])
                           /\ Do([Op("batch") EXCEPT !.kind = k, !.list = l, !.at = a, !.eff = eff])
         [] c = "mix" -> /\ db' = IF k = "tx" THEN [db EXCEPT !.tx = Apply(@, m)] ELSE [db EXCEPT !.rc = Apply(@, m)]
                         /\ Do([Op("mix") EXCEPT !.kind = k, !.list = m])
         [] c = "block" -> db' = Effects(b, at, eff) /\ Do([Op("block") EXCEPT !.b = b, !.at = at, !.eff = eff])
         [] c = "again" -> IF db.latest = NoBlock THEN UNCHANGED db /\ Do(Op("restart"))
                           ELSE db' = Stored(db, db.latest) /\ Do([Op("block") EXCEPT !.b = db.latest])
         [] c = "proof" -> LET a == IF at \in {0, 1} THEN at ELSE 0 IN
                           /\ (IF a = 1 /\ ~eff THEN UNCHANGED db ELSE db' = [db EXCEPT !.proof = p])
                           /\ Do([Op("proof") EXCEPT !.p = p, !.at = a, !.eff = eff])
         [] c = "remove" -> /\ db' = IF k = "tx" THEN [db EXCEPT !.tx = Del(@, h)] ELSE [db EXCEPT !.rc = Del(@, h)]
                            /\ Do([Op("remove") EXCEPT !.kind = k, !.h = h])
         [] c = "mismatch" -> UNCHANGED db /\ Do([Op("mismatch") EXCEPT !.kind = k, !.list = m])
         [] c = "restart" -> UNCHANGED db /\ Do(Op("restart"))
GDone == /\ Mode = "random" /\ Len(ops) = MaxOps /\ ~done
         /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<db, pend, ops, cur>>
GNext == SmallNext \/ RandNext \/ GDone
GSpec == GInit /\ [][GNext]_gvars

-----------------------------------------------------------------------------
(* C11: what latest, height and hash say *)
IndexAgrees == /\ (Mode # "small" \/ pend = <<>>) => (db.latest # NoBlock =>
                     (Extends(db.latest) => GetHash(db.latest) = db.latest))
               /\ \A b \in Blocks : GetHash(b) \in {NoBlock, b}
               /\ \A k \in Heights : GetHeight(k) # NoBlock => HeightFun[GetHeight(k)] = k
(* C12: at every point of storing a block that extends the chain, and after a stop there *)
LatestReachable == (Faults /\ db.latest # NoBlock) => (GetHeight(HeightFun[db.latest]) = db.latest /\ GetHash(db.latest) = db.latest)
PastKept == [][(pend # <<>> /\ Extends(cur)) => FailAllowed(db, cur, db')]_gvars
=============================================================================
