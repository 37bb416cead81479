------------------------------ MODULE NamesTrace ------------------------------
(* E.b: the value as bytes, E.text: as shown, E.f: its kind, E.same: reading  *)
(* it again, shown and as bytes, gave the same value, E.d: the digest of what *)
(* it is derived from.                                                        *)
EXTENDS Names, TraceLib
tvars == <<dig, l>>

TInit == NMInit /\ l = 1
(* the digests of short contents are remembered over the whole trace *)
TReset == Is("reset") /\ dig' = [x \in {y \in DOMAIN dig : Len(y) < 4} |-> dig[x]]
Agrees(v) == /\ (E.st = "ok") = v.ok
             /\ E.st \in {"ok", "err"}
             /\ v.ok => E.b = v.b /\ E.text = Shown(v.b) /\ E.f = v.f /\ E.same
TText == Is("text") /\ Agrees(FromText(E.kind, E.xs)) /\ UNCHANGED dig
TBytes == Is("bytes") /\ Agrees(FromBytes(E.kind, E.xs)) /\ UNCHANGED dig
TDigest == /\ \/ Is("digest") \/ Is("empty")
           /\ Digest(E.xs, E.d) /\ Agrees([ok |-> TRUE, b |-> E.d, f |-> "hash"])
TPubkey == Is("pubkey") /\ Digest(E.xs, E.d) /\ Agrees([ok |-> TRUE, b |-> Derived("user", E.d), f |-> "user"])
TCode == Is("code") /\ Digest(E.xs \o E.n, E.d) /\ Agrees([ok |-> TRUE, b |-> Derived(E.f0, E.d), f |-> E.f0])
TNext == TReset \/ TText \/ TBytes \/ TDigest \/ TPubkey \/ TCode
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
