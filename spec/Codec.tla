------------------------------- MODULE Codec -------------------------------
(* The objects the node writes to disk and to the wire, and what encoding    *)
(* them must mean.  An object is a kind, a variant and a code for each of    *)
(* the leaf fields of that variant (codes stand for concrete values chosen   *)
(* at the boundaries of the encodings; see harness/chain/src/codec.rs).      *)
(* `wire' is everything encoded so far: per kind and encoding a relation     *)
(* between objects and byte strings (tokens).  It must be a bijection, and   *)
(* decoding is its inverse.  `names' is the same for transaction hashes.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES wire,     \* set of [kind, enc, obj, bytes]
          names     \* set of [content, hash]
vars == <<wire, names>>

(* number of codes of each leaf type *)
Size == [hash |-> 6, u64 |-> 11, u8 |-> 6, bal |-> 9, bytes |-> 14, str |-> 11, uaddr |-> 4, caddr |-> 8, ctype |-> 4,
         bloom |-> 6, hashes |-> 9, args |-> 12, vals |-> 9, assets |-> 10, gassets |-> 8, allocs |-> 8, txs |-> 10]

TxCommon == <<"hash", "hash", "u64", "hash", "u64">>
Action == [transfer |-> <<"uaddr", "hash", "bal">>, approve |-> <<"caddr", "hash", "bal">>, deploy |-> <<"bytes", "ctype">>,
           call |-> <<"caddr", "str", "args">>, callwith |-> <<"caddr", "str", "args", "hash", "bal">>]
Result == [transfer |-> <<"uaddr", "hash", "bal", "bal">>, approve |-> <<"caddr", "hash", "bal">>, deploy |-> <<"caddr", "ctype">>,
           call |-> <<"caddr", "bytes", "bloom">>, fail |-> <<"str", "str">>]
ProofF == <<"u64", "u64", "hash", "bytes", "bytes">>
HeaderF == <<"hash", "u64", "hash", "u64", "bloom", "hash", "hashes", "hash", "hashes", "u64", "uaddr">> \o ProofF \o <<"u64", "vals">>
RcCommon == <<"hash", "u64", "hash", "hash", "u64">>
One(f) == [one |-> f]
ObjSchema ==
    [raw |-> [v \in DOMAIN Action |-> TxCommon \o Action[v]],
     signed |-> [v \in DOMAIN Action |-> TxCommon \o Action[v] \o <<"hash", "bytes", "bytes">>],
     receipt |-> [v \in DOMAIN Result |-> RcCommon \o Result[v]],
     result |-> Result,
     proof |-> One(ProofF), header |-> One(HeaderF), epoch |-> One(HeaderF \o <<"hashes">>),
     pill |-> One(HeaderF \o <<"hashes", "hashes">>), validator |-> One(<<"uaddr", "u8", "u8">>), epochid |-> One(<<"u64">>),
     hash |-> One(<<"hash">>), balance |-> One(<<"bal">>), fee |-> One(<<"hash", "u64">>),
     uaddr |-> One(<<"uaddr">>), caddr |-> One(<<"caddr">>), address |-> [user |-> <<"uaddr">>, contract |-> <<"caddr">>],
     asset |-> One(<<"hash", "str", "str", "bal", "caddr", "hash">>),
     account |-> [user |-> <<"u64", "assets">>, contract |-> <<"u64", "assets", "hash">>],
     genesis |-> One(<<"u64", "str", "str", "str", "u64", "str", "allocs">>),
     alloc |-> One(<<"str", "gassets">>), gasset |-> One(<<"str", "str">>)]
(* the messages nodes exchange, made of these *)
MsgSchema ==
    [pushtxs |-> One(<<"txs">>), pulltxs |-> One(<<"hashes">>), fixedtxs |-> One(<<"txs">>),
     fixedpill |-> One(HeaderF \o <<"hashes", "hashes">>), fixedid |-> One(<<"u64">>),
     request |-> [epoch |-> <<"u64">>, txs |-> <<"hashes">>],
     response |-> [epoch |-> HeaderF \o <<"hashes">>, txs |-> <<"txs">>],
     proposal |-> One(<<"bytes">>), vote |-> One(<<"bytes">>), qc |-> One(<<"bytes">>), richid |-> One(<<"u64">>),
     onetx |-> [v \in DOMAIN Action |-> TxCommon \o Action[v] \o <<"hash", "bytes", "bytes">>],
     oneepoch |-> One(HeaderF \o <<"hashes">>), both |-> One(<<"u64", "hashes", "txs", "u64">>)]
Schema == ObjSchema @@ MsgSchema
Kinds == DOMAIN Schema
Types(o) == Schema[o.kind][o.var]
IsObject(o) == o.kind \in Kinds /\ o.var \in DOMAIN Schema[o.kind] /\ Len(o.f) = Len(Types(o)) /\ \A i \in 1..Len(o.f) : o.f[i] \in 0..(Size[Types(o)[i]] - 1)

(* what each kind is encoded with: the protobuf of disk and peers, the       *)
(* canonical RLP, and the JSON of the genesis file                           *)
Encodings(k) == IF k \in DOMAIN MsgSchema
                THEN (IF k = "fixedpill" THEN {} ELSE {"msg"}) \cup (IF k \in {"fixedpill", "fixedtxs"} THEN {"codec"} ELSE {})
                ELSE
                (IF k \in {"result", "address", "account", "genesis", "alloc", "gasset"} THEN {} ELSE {"proto"})
                \cup (IF k = "balance" THEN {} ELSE {"rlp"})
                \cup (IF k \in {"genesis", "alloc", "gasset"} THEN {"json"} ELSE {})

(* the content of a transaction: what was signed *)
Content(o) == IF o.kind = "raw" THEN [var |-> o.var, f |-> o.f] ELSE [var |-> o.var, f |-> SubSeq(o.f, 1, Len(o.f) - 3)]

(* encoding o as b is possible: o has no other encoding, b no other meaning *)
Fits(k, e, o, b) == \A w \in wire : (w.kind = k /\ w.enc = e) => ((w.obj = o) <=> (w.bytes = b))
FitsName(c, h) == \A n \in names : (n.content = c) <=> (n.hash = h)

Init == wire = {} /\ names = {}
Encode(o, e, b) == Fits(o.kind, e, o, b) /\ wire' = wire \cup {[kind |-> o.kind, enc |-> e, obj |-> o, bytes |-> b]} /\ UNCHANGED names
Name(c, h) == FitsName(c, h) /\ names' = names \cup {[content |-> c, hash |-> h]} /\ UNCHANGED wire
(* what decoding known bytes yields *)
Meaning(k, e, b) == {w.obj : w \in {x \in wire : x.kind = k /\ x.enc = e /\ x.bytes = b}}

Bijective == /\ \A x, y \in wire : (x.kind = y.kind /\ x.enc = y.enc) => ((x.obj = y.obj) <=> (x.bytes = y.bytes))
             /\ \A x, y \in names : (x.content = y.content) <=> (x.hash = y.hash)
Decodable == \A w \in wire : Meaning(w.kind, w.enc, w.bytes) = {w.obj}
=============================================================================
