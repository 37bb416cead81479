---------------------------------- MODULE Api ----------------------------------
(* What a user's requests are answered with and what they put into the pool.  *)
(* Every argument is a text (see Names); an epoch is stored with the world    *)
(* its state root stands for.  The pool takes what it is given, or refuses.   *)
EXTENDS Names

VARIABLES chain,      \* stored epochs, [h (header), w (world: set of [a, s, v])]
          pool        \* the transactions the pool was given, in order
avars == <<chain, pool, dig>>
AInit == chain = <<>> /\ pool = <<>> /\ NMInit

(* ---- arguments ---- *)
RECURSIVE DropZeros(_)
DropZeros(b) == IF b # <<>> /\ b[1] = 0 THEN DropZeros(Tail(b)) ELSE b
PadTo(b, n) == [i \in 1..n |-> IF i <= n - Len(b) THEN 0 ELSE b[i - (n - Len(b))]]
(* a number: digits, at least one, of at most 64 bits; a single plus sign may stand before them *)
U64(t) == LET p == NoPrefix(t)
              h == IF p # <<>> /\ p[1] = 36 THEN Tail(p) ELSE p
              s == DropZeros([i \in 1..Len(h) |-> Digit(h[i])])
          IN IF h = <<>> \/ (\E i \in 1..Len(h) : ~IsDigit(h[i])) \/ Len(s) > 16 THEN No
             ELSE [ok |-> TRUE, b |-> BytesOf(PadTo(s, 16)), f |-> "u64"]
Raw(t) == LET h == NoPrefix(t) IN IF IsHex(h) THEN [ok |-> TRUE, b |-> BytesOf(h), f |-> "raw"] ELSE No
(* an amount is a number of bytes, shown without leading zeros but with at least one byte *)
Amount(b) == IF DropZeros(b) = <<>> THEN <<0>> ELSE DropZeros(b)

(* ---- the chain ---- *)
Store(e) == chain' = Append(chain, e) /\ UNCHANGED <<pool, dig>>
Latest == chain[Len(chain)]
At(id) == {i \in 1..Len(chain) : chain[i].h.id = id}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
(* the epoch a request means: the latest, or the one stored (last) at a height *)
Meant(none, t) == IF none THEN (IF chain = <<>> THEN {} ELSE {Latest})
                  ELSE IF U64(t).ok /\ At(U64(t).b) # {} THEN {chain[Max(At(U64(t).b))]} ELSE {}
(* answers to getLatestEpoch *)
EpochAnswer(r) == IF Meant(r.none, r.id) = {} THEN [ok |-> FALSE, h |-> <<>>]
                  ELSE [ok |-> TRUE, h |-> (CHOOSE e \in Meant(r.none, r.id) : TRUE).h]
(* answers to getBalance: a set, for there is no saying what an absent height is answered with *)
BalanceIn(e, a, s) == IF \E x \in e.w : x.a = a /\ x.s = s THEN Amount((CHOOSE x \in e.w : x.a = a /\ x.s = s).v) ELSE <<0>>
BalanceAnswers(r) ==
    LET a == FromText("address", r.a)
        s == FromText("hash", r.s)
        bad == [ok |-> FALSE, v |-> <<>>]
    IN IF (~r.none /\ ~U64(r.id).ok) \/ ~a.ok \/ ~s.ok THEN {bad}
       ELSE IF Meant(r.none, r.id) = {} THEN {bad, [ok |-> TRUE, v |-> <<0>>]}
       ELSE {[ok |-> TRUE, v |-> BalanceIn(e, a.b, s.b)] : e \in Meant(r.none, r.id)}

(* ---- sending ---- *)
RawTx(r) == [chain |-> FromText("hash", r.chain), nonce |-> FromText("hash", r.nonce), timeout |-> U64(r.timeout),
             feeasset |-> FromText("hash", r.feeasset), cycle |-> U64(r.cycle)]
Action(r) == IF r.kind = "transfer"
             THEN [x |-> FromText("user", r.to), y |-> FromText("hash", r.asset), z |-> Raw(r.amount)]
             ELSE [x |-> Raw(r.code), y |-> [ok |-> r.ct \in {"asset", "app", "library"}, b |-> <<>>, f |-> r.ct], z |-> [ok |-> TRUE, b |-> <<>>, f |-> "raw"]]
Sig(r) == IF r.unsafe THEN [k |-> Raw(r.key)] ELSE [hash |-> FromText("hash", r.hash), pubkey |-> Raw(r.pubkey), sig |-> Raw(r.sig)]
(* a private key has 32 bytes and is not zero *)
KeyOk(k) == Len(k) = 32 /\ \E i \in 1..32 : k[i] # 0
WellFormed(r) == /\ \A f \in DOMAIN RawTx(r) : RawTx(r)[f].ok
                 /\ \A f \in DOMAIN Action(r) : Action(r)[f].ok
                 /\ \A f \in DOMAIN Sig(r) : Sig(r)[f].ok
                 /\ r.unsafe => KeyOk(Sig(r).k.b)
(* the transaction meant *)
Written(r) == [chain |-> RawTx(r).chain.b, nonce |-> RawTx(r).nonce.b, timeout |-> RawTx(r).timeout.b,
               feeasset |-> RawTx(r).feeasset.b, cycle |-> RawTx(r).cycle.b, kind |-> r.kind,
               to |-> IF r.kind = "transfer" THEN Action(r).x.b ELSE <<>>,
               asset |-> IF r.kind = "transfer" THEN Action(r).y.b ELSE <<>>,
               amount |-> IF r.kind = "transfer" THEN Amount(Action(r).z.b) ELSE <<>>,
               code |-> IF r.kind = "deploy" THEN Action(r).x.b ELSE <<>>,
               ct |-> IF r.kind = "deploy" THEN r.ct ELSE ""]
Send(r) == /\ pool' = IF WellFormed(r) THEN Append(pool, Written(r)) ELSE pool
           /\ UNCHANGED <<chain, dig>>
Succeeds(r) == WellFormed(r) /\ ~r.refuse

(* ---- the listed property, on the specification ---- *)
(* what is answered is stored; heights are told apart; nothing malformed gets in *)
AnswersAreStored(r) == EpochAnswer(r).ok => \E i \in 1..Len(chain) : chain[i].h = EpochAnswer(r).h /\ (~r.none => chain[i].h.id = U64(r.id).b)
OnlyWellFormed == \A i \in 1..Len(pool) : /\ Len(pool[i].chain) = 32 /\ Len(pool[i].nonce) = 32 /\ Len(pool[i].feeasset) = 32
                                          /\ Len(pool[i].timeout) = 8 /\ Len(pool[i].cycle) = 8
                                          /\ pool[i].kind = "transfer" => Len(pool[i].to) = 21 /\ Flavour(pool[i].to) = "user"
=============================================================================
