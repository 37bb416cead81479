----------------------------- MODULE StorageTrace -----------------------------
(* After every recorded store operation everything is read back (in every way *)
(* the interface offers) and compared with Storage.  After an operation that  *)
(* failed or was killed, what is found must be allowed by FailAllowed, and    *)
(* the history goes on from there.                                            *)
EXTENDS Storage, TraceLib
VARIABLES maybe,    \* blocks whose hash record may or may not have been written by a failed store
          skip
tvars == <<db, pend, l, maybe, skip>>

Heights == 1..7
Tok(k, v) == "b" \o ToString(k) \o "." \o ToString(v)
HeightFun == [b \in {Tok(k, v) : k \in Heights, v \in 1..2} |-> CHOOSE k \in Heights : \E v \in 1..2 : b = Tok(k, v)]
R == E.reads

Answers(f, keys) == SelectSeq([i \in Idx(keys) |-> Get(f, keys[i], 0)], LAMBDA v : v # 0)
(* transactions, receipts, proof, blocks by height *)
Content(d) ==
    /\ \A i \in Idx(R.tx) : R.tx[i][2] = Get(d.tx, R.tx[i][1], 0)
    /\ \A i \in Idx(R.rc) : R.rc[i][2] = Get(d.rc, R.rc[i][1], 0)
    /\ \A i \in Idx(R.has) : R.has[i][2] = (R.has[i][1] \in DOMAIN d.tx) /\ R.has[i][3] = (R.has[i][1] \in DOMAIN d.rc)
    /\ R.btx = Answers(d.tx, R.bkeys)
    /\ R.brc = Answers(d.rc, R.bkeys)
    /\ R.proof = d.proof
ByHeight(d) == \A i \in Idx(R.byh) : R.byh[i][2] = Get(d.byH, R.byh[i][1], NoBlock)
HashRead(d, b) == IF b \in d.byX /\ Get(d.byH, HeightOf[b], NoBlock) = b THEN b ELSE NoBlock
ByHash(d) == \A i \in Idx(R.byx) : LET b == R.byx[i][1] IN
                 \/ R.byx[i][2] = HashRead(d, b)
                 \/ b \in maybe' /\ Get(d.byH, HeightOf[b], NoBlock) = b /\ R.byx[i][2] \in {b, NoBlock}
All10(d) == Content(d) /\ ByHeight(d)
All11(d) == ByHeight(d) /\ ByHash(d) /\ R.latest = d.latest
Everything(d) == All10(d) /\ All11(d)
Judge(d, st) ==
    /\ Focus = "C10" => st /\ All10(d)
    /\ Focus = "C11" => st /\ All11(d)
    /\ Focus = "C12" => st /\ Everything(d)
    /\ skip' = ~(st /\ Everything(d))

(* what was found after a failed operation *)
Found == [tx |-> [h \in {R.tx[i][1] : i \in {j \in Idx(R.tx) : R.tx[j][2] # 0}} |->
                    R.tx[CHOOSE i \in Idx(R.tx) : R.tx[i][1] = h][2]],
          rc |-> [h \in {R.rc[i][1] : i \in {j \in Idx(R.rc) : R.rc[j][2] # 0}} |->
                    R.rc[CHOOSE i \in Idx(R.rc) : R.rc[i][1] = h][2]],
          byH |-> [k \in {R.byh[i][1] : i \in {j \in Idx(R.byh) : R.byh[j][2] # NoBlock}} |->
                    R.byh[CHOOSE i \in Idx(R.byh) : R.byh[i][1] = k][2]],
          byX |-> db.byX \cup {R.byx[i][1] : i \in {j \in Idx(R.byx) : R.byx[j][2] # NoBlock}},
          latest |-> R.latest, proof |-> R.proof]

After(o) == CASE o.op \in {"batch", "mix"} -> IF o.kind = "tx" THEN [db EXCEPT !.tx = Apply(@, o.list)] ELSE [db EXCEPT !.rc = Apply(@, o.list)]
              [] o.op = "remove" -> IF o.kind = "tx" THEN [db EXCEPT !.tx = Del(@, o.h)] ELSE [db EXCEPT !.rc = Del(@, o.h)]
              [] o.op = "proof" -> [db EXCEPT !.proof = o.p]
              [] o.op = "block" -> Stored(db, o.b)
              [] OTHER -> db

TInit == Init /\ l = 1 /\ maybe = {} /\ skip = FALSE
TReset == Is("reset") /\ db' = EmptyDb /\ pend' = <<>> /\ maybe' = {} /\ skip' = FALSE
TOp == /\ Is("op") /\ ~skip /\ UNCHANGED pend
       /\ LET o == E.o IN
          IF E.fault /\ E.st # "ok"
          THEN /\ maybe' = IF o.op = "block" THEN maybe \cup {o.b} ELSE maybe
               /\ db' = Found
               /\ LET fine == Everything(db') /\ (IF o.op = "block" THEN FailAllowed(db, o.b, db') ELSE db' \in {db, After(o)}) IN
                  (Focus = "C12" => fine) /\ skip' = ~fine
          ELSE /\ maybe' = IF o.op = "block" THEN maybe \ {o.b} ELSE maybe
               /\ db' = After(o)
               /\ Judge(db', IF o.op = "mismatch" THEN E.st = "err" ELSE E.st = "ok")
TSkip == skip /\ More /\ E.e # "reset" /\ l' = l + 1 /\ Unjudged /\ UNCHANGED <<db, pend, maybe, skip>>
TNext == TReset \/ TOp \/ TSkip
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
