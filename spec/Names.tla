-------------------------------- MODULE Names ---------------------------------
(* How hashes and addresses are named: read from text and from bytes, shown   *)
(* as text, derived from contents, public keys and code.                      *)
(* A text is a sequence of characters: 0..15 hexadecimal digits, 16..31 the   *)
(* same in upper case, 34 "x", 37 "X", anything else some other character.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE dig          \* the digests seen so far: contents -> 32 bytes
nmvars == <<dig>>
NMInit == dig = [x \in {} |-> <<>>]

(* ---- texts ---- *)
Digit(c) == IF c < 16 THEN c ELSE c - 16
IsDigit(c) == c \in 0..31
NoPrefix(t) == IF Len(t) >= 2 /\ t[1] \in {0, 16} /\ t[2] = 34 THEN SubSeq(t, 3, Len(t)) ELSE t
IsHex(t) == Len(t) % 2 = 0 /\ \A i \in 1..Len(t) : IsDigit(t[i])
BytesOf(t) == [i \in 1..(Len(t) \div 2) |-> 16 * Digit(t[2 * i - 1]) + Digit(t[2 * i])]
Shown(b) == [i \in 1..(2 * Len(b)) |-> IF i % 2 = 1 THEN b[(i + 1) \div 2] \div 16 ELSE b[i \div 2] % 16]

(* ---- kinds ---- *)
Magic == [user |-> 16, asset |-> 32, app |-> 33, library |-> 34, native |-> 35]
Flavour(b) == IF \E k \in DOMAIN Magic : b # <<>> /\ Magic[k] = b[1] THEN CHOOSE k \in DOMAIN Magic : Magic[k] = b[1] ELSE "none"
Good(kind, b) == CASE kind = "hash" -> Len(b) = 32
                   [] kind = "user" -> Len(b) = 21 /\ Flavour(b) = "user"
                   [] kind = "contract" -> Len(b) = 21 /\ Flavour(b) \in (DOMAIN Magic \ {"user"})
                   [] kind = "address" -> Len(b) = 21 /\ Flavour(b) # "none"
FlavourOf(kind, b) == IF kind = "hash" THEN "hash" ELSE Flavour(b)
No == [ok |-> FALSE, b |-> <<>>, f |-> "none"]
FromBytes(kind, b) == IF Good(kind, b) THEN [ok |-> TRUE, b |-> b, f |-> FlavourOf(kind, b)] ELSE No
FromText(kind, t) == LET h == NoPrefix(t) IN IF IsHex(h) THEN FromBytes(kind, BytesOf(h)) ELSE No

(* ---- digests: some function of the contents, without collisions ---- *)
Known == << <<<<>>, <<197, 210, 70, 1>>>>, <<<<128>>, <<86, 232, 31, 23>>>>, <<<<97, 98, 99>>, <<78, 3, 101, 122>>>> >>
DigestOk(x, d) == /\ Len(d) = 32
                  /\ x \in DOMAIN dig => d = dig[x]
                  /\ \A y \in DOMAIN dig : y # x => dig[y] # d
                  /\ \A i \in 1..Len(Known) : (Known[i][1] = x) <=> (Known[i][2] = SubSeq(d, 1, 4))
Digest(x, d) == DigestOk(x, d) /\ dig' = (x :> d) @@ dig
Derived(k, d) == <<Magic[k]>> \o SubSeq(d, 1, 20)

(* ---- what these definitions guarantee ---- *)
(* a value shown is read back; texts of one value differ in prefix and case only *)
Canonical(kind, t) == FromText(kind, t).ok => /\ FromText(kind, Shown(FromText(kind, t).b)) = FromText(kind, t)
                                              /\ Len(NoPrefix(t)) = 2 * Len(FromText(kind, t).b)
(* no text names both a user and a contract, an address and a hash; an address is one of the two *)
OneKind(t) == /\ ~(FromText("user", t).ok /\ FromText("contract", t).ok)
              /\ FromText("address", t).ok <=> (FromText("user", t).ok \/ FromText("contract", t).ok)
              /\ ~(FromText("address", t).ok /\ FromText("hash", t).ok)
Distinct == \A x, y \in DOMAIN dig : x # y => dig[x] # dig[y]
=============================================================================
