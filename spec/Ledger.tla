------------------------------- MODULE Ledger -------------------------------
(* The executor: worlds under state roots, blocks of transactions, receipts, *)
(* fees.  One action per linearization point of the public interface:        *)
(* create_genesis, exec (begin, one step per transaction, end), reading the  *)
(* state under a root, switching to an empty database.                       *)
(* Amounts are triples <<h, m, l>> standing for h*10^40 + m*10^10 + l, so    *)
(* that TLC's 32-bit integers describe balances beyond 128 bits exactly.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS TransferCost, DeployCost   \* cycles of the two operations

VARIABLES hist,   \* state root (token) -> world; append-only
          avail,  \* roots whose state is in the current database
          blk     \* block being executed, or NoBlock
lvars == <<hist, avail, blk>>

NoBlock == [open |-> FALSE]
EmptyF == [x \in {} |-> x]

-----------------------------------------------------------------------------
(* amounts *)
Zero == <<0, 0, 0>>
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VGe(a, b) == \/ a[1] > b[1]
             \/ a[1] = b[1] /\ a[2] > b[2]
             \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] >= b[3]
Mul(n, p) == <<0, n * p[1], n * p[2]>>      \* n cycles at price <<m, l>>

(* finite maps *)
Has(f, k) == k \in DOMAIN f
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

-----------------------------------------------------------------------------
(* worlds: [acct: address -> [nonce, bal: asset -> amount], reg: asset -> info] *)
EmptyWorld == [acct |-> EmptyF, reg |-> EmptyF]
NewAcct == [nonce |-> 0, bal |-> EmptyF]
Acct(w, a) == Get(w.acct, a, NewAcct)
SetAcct(w, a, x) == [w EXCEPT !.acct = Put(w.acct, a, x)]
Balance(w, a, s) == Get(Acct(w, a).bal, s, Zero)
Credit(w, a, s, v) ==
    LET x == Acct(w, a)
    IN  SetAcct(w, a, [x EXCEPT !.bal = Put(x.bal, s, VAdd(Get(x.bal, s, Zero), v))])
Debit(w, a, s, v) ==
    LET x == Acct(w, a)
    IN  SetAcct(w, a, [x EXCEPT !.bal = Put(x.bal, s, VSub(x.bal[s], v))])
IncNonce(w, a) == LET x == Acct(w, a) IN SetAcct(w, a, [x EXCEPT !.nonce = @ + 1])
CreateAcct(w, a) == SetAcct(w, a, Acct(w, a))
Register(w, s, i) == [w EXCEPT !.reg = Put(w.reg, s, i)]

(* The identity of an asset: the deployed code and the deployer's nonce. *)
AssetOf(code, nonce) == code \o "#" \o ToString(nonce)
DeployInfo == [name |-> "System token", symbol |-> "ST", supply |-> "21000000000000000"]

-----------------------------------------------------------------------------
(* Transactions.  Outcome(w, tx) = [ok, why, used, world, res]; `world` still *)
(* lacks the nonce increment. *)
Within(cost, limit) == limit = -1 \/ cost <= limit    \* -1: the largest limit
Failure(w, why) == [ok |-> FALSE, why |-> why, used |-> 0, world |-> w, res |-> [k |-> "fail"]]
Success(w, used, res) == [ok |-> TRUE, why |-> "", used |-> used, world |-> w, res |-> res]

TransferOutcome(w, tx) ==
    IF ~Has(w.reg, tx.asset) THEN Failure(w, "asset")
    ELSE IF ~Has(w.acct, tx.from) THEN Failure(w, "account")
    ELSE IF ~Has(w.acct[tx.from].bal, tx.asset) THEN Failure(w, "balance")
    ELSE IF ~VGe(Balance(w, tx.from, tx.asset), tx.amt) THEN Failure(w, "balance")
    ELSE IF ~Within(TransferCost, tx.limit) THEN Failure(w, "cycles")
    ELSE LET w2 == Credit(Debit(w, tx.from, tx.asset, tx.amt), tx.to, tx.asset, tx.amt)
         IN  Success(w2, TransferCost,
                     [k |-> "transfer", to |-> tx.to, asset |-> tx.asset,
                      before |-> Balance(w, tx.from, tx.asset),
                      after |-> Balance(w2, tx.from, tx.asset)])

DeployOutcome(w, tx) ==
    IF tx.kind # "asset" THEN Failure(w, "unsupported")
    ELSE IF ~Has(w.acct, tx.from) THEN Failure(w, "account")
    ELSE LET s == AssetOf(tx.code, w.acct[tx.from].nonce)
         IN  IF Has(w.reg, s) THEN Failure(w, "exists")
             ELSE IF ~Within(DeployCost, tx.limit) THEN Failure(w, "cycles")
             ELSE Success(Register(w, s, DeployInfo), DeployCost, [k |-> "deploy", asset |-> s])

Outcome(w, tx) ==
    CASE tx.k = "transfer" -> TransferOutcome(w, tx)
      [] tx.k = "deploy"   -> DeployOutcome(w, tx)
      [] OTHER             -> Failure(w, "unsupported")

(* fees: a sequence of <<asset, amount>> in order of first appearance *)
AddFee(fees, s, v) ==
    IF \E i \in 1..Len(fees) : fees[i][1] = s
    THEN [i \in 1..Len(fees) |-> IF fees[i][1] = s THEN <<s, VAdd(fees[i][2], v)>> ELSE fees[i]]
    ELSE Append(fees, <<s, v>>)

RECURSIVE CreditAll(_, _, _)
CreditAll(w, a, fees) ==
    IF fees = <<>> THEN w
    ELSE CreditAll(Credit(w, a, Head(fees)[1], Head(fees)[2]), a, Tail(fees))

(* genesis: alloc is a sequence of <<address, sequence of <<asset, amount>> >> *)
RECURSIVE Alloc(_, _)
Alloc(w, alloc) ==
    IF alloc = <<>> THEN w
    ELSE Alloc(CreditAll(CreateAcct(w, Head(alloc)[1]), Head(alloc)[1], Head(alloc)[2]), Tail(alloc))
GenesisWorld(token, alloc) ==
    Alloc(Register(EmptyWorld, AssetOf(token.code, 0),
                   [name |-> token.name, symbol |-> token.symbol, supply |-> token.supply]), alloc)

-----------------------------------------------------------------------------
(* A root determines its world, and a world its root. *)
RootOf(t, w) == IF Has(hist, t) THEN hist[t] = w ELSE \A u \in DOMAIN hist : hist[u] # w

Init == hist = EmptyF /\ avail = {} /\ blk = NoBlock

Genesis(token, alloc, t) ==
    LET w == GenesisWorld(token, alloc)
    IN  /\ ~blk.open
        /\ RootOf(t, w)
        /\ hist' = Put(hist, t, w)
        /\ avail' = avail \cup {t}
        /\ UNCHANGED blk

Begin(t, height, price, cb) ==
    /\ ~blk.open
    /\ t \in avail
    /\ blk' = [open |-> TRUE, parent |-> t, world |-> hist[t], height |-> height, price |-> price,
               cb |-> cb, fees |-> <<>>, n |-> 0, senders |-> <<>>, lastok |-> TRUE, failed |-> FALSE]
    /\ UNCHANGED <<hist, avail>>

Tx(tx) ==
    /\ blk.open
    /\ LET o == Outcome(blk.world, tx)
       IN  blk' = [blk EXCEPT !.world = IncNonce(o.world, tx.from),
                              !.fees = AddFee(blk.fees, tx.feeAsset, Mul(o.used, blk.price)),
                              !.n = @ + 1,
                              !.senders = Append(@, tx.from),
                              !.lastok = o.ok,
                              !.failed = @ \/ ~o.ok]
    /\ UNCHANGED <<hist, avail>>

EndWorld == CreditAll(blk.world, blk.cb, blk.fees)
End(t) ==
    /\ blk.open
    /\ RootOf(t, EndWorld)
    /\ hist' = Put(hist, t, EndWorld)
    /\ avail' = avail \cup {t}
    /\ blk' = NoBlock

NewDb == ~blk.open /\ avail' = {} /\ UNCHANGED <<hist, blk>>

-----------------------------------------------------------------------------
(* The listed properties, over this specification. *)
Assets(w) == UNION {DOMAIN w.acct[a].bal : a \in DOMAIN w.acct}
RECURSIVE SumOver(_, _, _)
SumOver(w, S, s) == IF S = {} THEN Zero
                    ELSE LET a == CHOOSE x \in S : TRUE
                         IN  VAdd(Balance(w, a, s), SumOver(w, S \ {a}, s))
Total(w, s) == SumOver(w, DOMAIN w.acct, s)
FeeOf(fees, s) == IF \E i \in 1..Len(fees) : fees[i][1] = s
                  THEN fees[CHOOSE i \in 1..Len(fees) : fees[i][1] = s][2] ELSE Zero

NoOverdraft == \A t \in DOMAIN hist : \A a \in DOMAIN hist[t].acct :
                  \A s \in DOMAIN hist[t].acct[a].bal : VGe(hist[t].acct[a].bal[s], Zero)
(* C01: inside a block the totals do not move *)
Conserved == blk.open =>
    \A s \in Assets(blk.world) \cup Assets(hist[blk.parent]) :
        Total(blk.world, s) = Total(hist[blk.parent], s)
(* C01/C05: a finished block adds its fees to the coinbase, and nothing else *)
FeesPaid == [][(blk.open /\ ~blk'.open) =>
    LET w0 == hist[blk.parent]  w1 == EndWorld IN
    /\ \A s \in Assets(w1) \cup Assets(w0) : Total(w1, s) = VAdd(Total(w0, s), FeeOf(blk.fees, s))
    /\ \A s \in Assets(w1) : Balance(w1, blk.cb, s) = VAdd(Balance(blk.world, blk.cb, s), FeeOf(blk.fees, s))
    /\ \A a \in DOMAIN blk.world.acct \ {blk.cb} : w1.acct[a] = blk.world.acct[a]]_lvars
(* C02: a failing transaction only moves its sender's nonce *)
Atomic == [][(blk.open /\ blk'.open /\ blk'.n = blk.n + 1 /\ ~blk'.lastok) =>
              /\ blk'.world = IncNonce(blk.world, blk'.senders[blk'.n])
              /\ \A i \in 1..Len(blk'.fees) : blk'.fees[i][2] = FeeOf(blk.fees, blk'.fees[i][1])]_lvars
(* C03: nonces count executed transactions *)
CountOf(a) == Cardinality({i \in 1..Len(blk.senders) : blk.senders[i] = a})
NoncesCount == blk.open =>
    \A a \in DOMAIN blk.world.acct : blk.world.acct[a].nonce = Acct(hist[blk.parent], a).nonce + CountOf(a)
(* C04 *)
RootsInjective == \A t, u \in DOMAIN hist : t # u => hist[t] # hist[u]
HistoryKept == [][\A t \in DOMAIN hist : Has(hist', t) /\ hist'[t] = hist[t]]_lvars
(* C07 *)
RegistryKept == blk.open => \A s \in DOMAIN hist[blk.parent].reg :
                    Has(blk.world.reg, s) /\ blk.world.reg[s] = hist[blk.parent].reg[s]
=============================================================================
