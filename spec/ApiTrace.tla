------------------------------- MODULE ApiTrace --------------------------------
(* Every recorded answer is the one Api gives, and the pool was given exactly  *)
(* the transaction that was written in the request.                            *)
EXTENDS Api, TraceLib
tvars == <<chain, pool, dig, l>>

TInit == AInit /\ l = 1
TReset == Is("reset") /\ chain' = <<>> /\ pool' = <<>> /\ UNCHANGED dig
TEpoch == Is("epoch") /\ Store([h |-> E.h, w |-> Elems(E.w)])
ShownAll(s) == [i \in Idx(s) |-> Shown(s[i])]
SameHeader(h, j) == /\ j.id = Shown(h.id) /\ j.chain = Shown(h.chain) /\ j.pre = Shown(h.pre) /\ j.time = Shown(h.time)
                    /\ j.order = Shown(h.order) /\ j.confirm = ShownAll(h.confirm) /\ j.receipt = ShownAll(h.receipt)
                    /\ j.cycles = Shown(h.cycles) /\ j.prop = Shown(h.prop) /\ j.ver = Shown(h.ver)
                    /\ j.txs = ShownAll(h.txs) /\ j.state
TLatest == /\ Is("latest") /\ UNCHANGED avars
           /\ LET x == EpochAnswer(E.r) IN IF x.ok THEN E.st = "ok" /\ SameHeader(x.h, E.h) ELSE E.st = "err"
TBalance == /\ Is("balance") /\ UNCHANGED avars
            /\ \E x \in BalanceAnswers(E.r) : IF x.ok THEN E.st = "ok" /\ E.v = Shown(x.v) ELSE E.st = "err"
(* the hash that is answered, and the signature that is passed on, are those of the request or made with its key *)
Signed(r) == IF r.unsafe THEN E.own ELSE E.hash = Sig(r).hash.b /\ E.pubkey = Sig(r).pubkey.b /\ E.sig = Sig(r).sig.b
TSend == /\ Is("send") /\ Send(E.r)
         /\ E.given = (IF WellFormed(E.r) THEN <<Written(E.r)>> ELSE <<>>)
         /\ WellFormed(E.r) => Signed(E.r)
         /\ IF Succeeds(E.r) THEN E.st = "ok" /\ FromText("hash", E.answer).ok /\ FromText("hash", E.answer).b = E.hash ELSE E.st = "err"
TNext == TReset \/ TEpoch \/ TLatest \/ TBalance \/ TSend
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
