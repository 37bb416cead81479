------------------------------- MODULE Storage -------------------------------
(* The block store: transactions and receipts under hashes, blocks under      *)
(* heights and hashes, the latest block, the latest proof.  Storing a block   *)
(* is three writes (height, hash, latest), between which the process may      *)
(* stop; every other store operation is one write.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS HeightOf    \* block token -> height token (a function)

VARIABLES db,     \* [tx, rc: hash -> value, byH: height -> block, byX: block -> height, latest, proof]
          pend    \* writes of the block being stored that are still to be made
svars == <<db, pend>>

EmptyF == [x \in {} |-> x]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
NoBlock == ""
EmptyDb == [tx |-> EmptyF, rc |-> EmptyF, byH |-> EmptyF, byX |-> {}, latest |-> NoBlock, proof |-> 0]
Init == db = EmptyDb /\ pend = <<>>

(* list of <<hash, value>>, value 0 removes; the last entry for a hash counts *)
RECURSIVE Apply(_, _)
Apply(f, list) == IF list = <<>> THEN f
                  ELSE LET x == Head(list) IN Apply(IF x[2] = 0 THEN Del(f, x[1]) ELSE Put(f, x[1], x[2]), Tail(list))

Batch(kind, list) == /\ pend = <<>>
                     /\ db' = IF kind = "tx" THEN [db EXCEPT !.tx = Apply(@, list)] ELSE [db EXCEPT !.rc = Apply(@, list)]
                     /\ UNCHANGED pend
Proof(p) == pend = <<>> /\ db' = [db EXCEPT !.proof = p] /\ UNCHANGED pend

Write(d, w) == CASE w[1] = "height" -> [d EXCEPT !.byH = Put(@, HeightOf[w[2]], w[2])]
                 [] w[1] = "hash" -> [d EXCEPT !.byX = @ \cup {w[2]}]
                 [] w[1] = "latest" -> [d EXCEPT !.latest = w[2]]
Writes(b) == << <<"height", b>>, <<"hash", b>>, <<"latest", b>> >>
RECURSIVE All(_, _)
All(d, ws) == IF ws = <<>> THEN d ELSE All(Write(d, Head(ws)), Tail(ws))
Stored(d, b) == All(d, Writes(b))

BlockBegin(b) == pend = <<>> /\ pend' = Writes(b) /\ UNCHANGED db
BlockWrite == pend # <<>> /\ db' = Write(db, Head(pend)) /\ pend' = Tail(pend)
Crash == pend' = <<>> /\ UNCHANGED db
Restart == pend = <<>> /\ UNCHANGED svars

(* reads *)
GetTx(h) == Get(db.tx, h, 0)
GetRc(h) == Get(db.rc, h, 0)
GetHeight(k) == Get(db.byH, k, NoBlock)
(* a hash never names another block: nothing is returned once its height was given to a different one *)
GetHash(b) == IF b \in db.byX /\ GetHeight(HeightOf[b]) = b THEN b ELSE NoBlock

-----------------------------------------------------------------------------
(* What may be found after storing b on d0 failed or stopped somewhere (C12). *)
FailAllowed(d0, b, d1) ==
    /\ d1.tx = d0.tx /\ d1.rc = d0.rc /\ d1.proof = d0.proof
    /\ d1.latest \in {d0.latest, b}
    /\ \A k \in DOMAIN d0.byH \cup DOMAIN d1.byH :
         Get(d1.byH, k, NoBlock) \in {Get(d0.byH, k, NoBlock)} \cup (IF k = HeightOf[b] THEN {b} ELSE {})
    /\ d0.byX \subseteq d1.byX /\ d1.byX \subseteq d0.byX \cup {b}
    /\ d1.latest = b => b \in d1.byX /\ d1.byH[HeightOf[b]] = b
=============================================================================
