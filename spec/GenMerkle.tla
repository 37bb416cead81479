------------------------------ MODULE GenMerkle ------------------------------
EXTENDS Merkle, Json
CONSTANTS Mode, MaxOps, MaxLen, Elems
VARIABLES ops, done, cur
gvars == <<roots, ops, done, cur>>

GInit == Init /\ ops = <<>> /\ done = FALSE /\ cur = <<>>
Do(xs) == ops' = Append(ops, [op |-> "list", xs |-> xs])

(* ---- exhaustive: every list over Elems up to MaxLen, in one behaviour per length ---- *)
Digits(n, i, b) == [k \in 1..n |-> (i \div (b ^ (k - 1))) % b]
SmallNext ==
    /\ Mode = "small" /\ UNCHANGED done
    /\ \E n \in {Len(cur)} :
       LET b == Cardinality(Elems) IN
       \/ /\ ops = <<>> /\ \E m \in 0..MaxLen : cur' = Digits(m, 0, b) /\ Do(cur') /\ Commit(cur', Root(cur'))
       \/ /\ ops # <<>> /\ Len(ops) < b ^ n
          /\ cur' = Digits(n, Len(ops), b) /\ Do(cur') /\ Commit(cur', Root(cur'))
Closed == Len(ops) = Cardinality(Elems) ^ Len(cur)
PrintAll == (Mode = "small" /\ Closed') => PrintT("BEH " \o ToJson(ops'))
view == <<cur, Len(ops)>>

(* ---- random: a list and its neighbours ---- *)
Pick(seq) == seq[RandomElement(1..Len(seq))]
RElem(z) == RandomElement(Elems)
RLen(z) == Pick(<<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 40>>)
RList(n) == LET k == RandomElement(1..4) IN [i \in 1..n |-> IF k = 1 THEN RElem(i) ELSE (i * k) % Cardinality(Elems)]
RIx(xs) == RandomElement(1..Len(xs))
RandNext ==
    /\ Mode = "random" /\ Len(ops) < MaxOps /\ UNCHANGED <<done, roots>>
    /\ \E c \in {IF cur = <<>> THEN "fresh" ELSE Pick(<<"fresh", "set", "set", "swap", "swap", "append", "drop", "remove", "dup", "insert", "reverse">>)} :
       /\ CASE c = "fresh" -> \E n \in {RLen(ops)} : \E xs \in {RList(n)} : cur' = xs
            [] c = "set" -> \E i \in {RIx(cur)}, x \in {RElem(ops)} : cur' = [cur EXCEPT ![i] = x]
            [] c = "swap" -> \E i \in {RIx(cur)}, j \in {RIx(cur)} : cur' = [cur EXCEPT ![i] = cur[j], ![j] = cur[i]]
            [] c = "append" -> \E x \in {RElem(ops)} : cur' = Append(cur, x)
            [] c = "drop" -> cur' = SubSeq(cur, 1, Len(cur) - 1)
            [] c = "remove" -> \E i \in {RIx(cur)} : cur' = SubSeq(cur, 1, i - 1) \o SubSeq(cur, i + 1, Len(cur))
            [] c = "insert" -> \E i \in {RIx(cur)}, x \in {RElem(ops)} : cur' = SubSeq(cur, 1, i) \o <<x>> \o SubSeq(cur, i + 1, Len(cur))
            [] c = "dup" -> cur' = Append(cur, cur[Len(cur)])
            [] c = "reverse" -> cur' = [i \in 1..Len(cur) |-> cur[Len(cur) + 1 - i]]
       /\ Do(cur')
GDone == /\ Mode = "random" /\ Len(ops) = MaxOps /\ ~done
         /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<roots, ops, cur>>
GNext == SmallNext \/ RandNext \/ GDone
GSpec == GInit /\ [][GNext]_gvars

Proofs == Sound(cur, Elems)
=============================================================================
