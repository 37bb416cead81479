------------------------------- MODULE GenNames -------------------------------
EXTENDS Names, Json
CONSTANTS Mode, MaxOps
VARIABLES ops, done
gvars == <<dig, ops, done>>

Text(pre, first, n, cs, flaw) ==
    LET b == [i \in 1..n |-> IF i = 1 THEN first ELSE (i * 37 + 160) % 256]
        d == Shown(b)
        k == CASE cs = "lower" -> d
               [] cs = "upper" -> [i \in 1..Len(d) |-> d[i] + 16]
               [] OTHER -> [i \in 1..Len(d) |-> IF i % 2 = 0 THEN d[i] + 16 ELSE d[i]]
        f == CASE flaw = "none" -> k
               [] flaw = "odd" -> Append(k, 1)
               [] flaw = "short" -> SubSeq(k, 1, Len(k) - 1)
               [] flaw = "last" -> IF k = <<>> THEN <<32>> ELSE [k EXCEPT ![Len(k)] = 32]
               [] flaw = "first" -> IF k = <<>> THEN <<32>> ELSE [k EXCEPT ![1] = 32]
               [] flaw = "wide" -> IF k = <<>> THEN <<33>> ELSE [k EXCEPT ![Len(k)] = 33]
               [] flaw = "space" -> <<35>> \o k
               [] flaw = "tail" -> Append(k, 35)
               [] flaw = "plus" -> <<36>> \o k
    IN pre \o f
Bytes(first, n) == [i \in 1..n |-> IF i = 1 THEN first ELSE (i * 37 + 160) % 256]
Kinds == {"hash", "user", "contract", "address"}
Pre == {<<>>, <<0, 34>>, <<0, 37>>, <<0, 34, 0, 34>>, <<34>>, <<0>>}
First == {0, 15, 16, 17, 31, 32, 33, 34, 35, 36, 48, 255}
Lens == {0, 1, 2, 20, 21, 22, 31, 32, 33, 42, 64}
Blank == [op |-> "", kind |-> "", xs |-> <<>>, n |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, f |-> ""]
ReadT(kind, t) == [Blank EXCEPT !.op = "text", !.kind = kind, !.xs = t]
ReadB(kind, b) == [Blank EXCEPT !.op = "bytes", !.kind = kind, !.xs = b]

GInit == NMInit /\ ops = <<>> /\ done = FALSE
(* ---- every reading; one behaviour per text ---- *)
All4(mk(_, _), x) == << mk("hash", x), mk("user", x), mk("contract", x), mk("address", x) >>
SmallNext ==
    /\ Mode = "small" /\ ops = <<>> /\ UNCHANGED <<dig, done>>
    /\ \/ \E first \in First, n \in Lens :
          \/ ops' = All4(ReadB, Bytes(first, n))
          \/ \E p \in {<<>>, <<0, 34>>}, flaw \in {"none", "odd", "last"} : ops' = All4(ReadT, Text(p, first, n, "lower", flaw))
       \/ \E first \in {16, 33}, n \in {0, 1, 21, 32}, p \in Pre, cs \in {"lower", "upper", "mixed"},
             flaw \in {"none", "odd", "short", "last", "first", "wide", "space", "tail", "plus"} :
          ops' = All4(ReadT, Text(p, first, n, cs, flaw))
PrintAll == (Mode = "small" /\ ops' # ops) => PrintT("BEH " \o ToJson(ops'))
Readings == Mode = "small" => \A i \in 1..Len(ops) : ops[i].op = "text" => Canonical(ops[i].kind, ops[i].xs) /\ OneKind(ops[i].xs)

(* ---- random: derivations from contents that are alike, and readings ---- *)
Pick(seq) == seq[RandomElement(1..Len(seq))]
RByte(z) == Pick(<<0, 0, 1, 2, 127, 128, 255>>)
RCont(z) == LET n == Pick(<<0, 1, 1, 2, 3, 8, 9, 33>>) IN [i \in 1..n |-> RByte(i)]
RNonce(z) == Pick(<< <<0,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,1>>, <<0,0,0,0,0,0,1,0>>, <<0,0,0,1,0,0,0,0>>, <<1,0,0,0,0,0,0,0>>,
                     <<0,0,0,0,0,1,0,0>>, <<255,255,255,255,255,255,255,255>>, <<0,0,0,0,255,255,255,255>>, <<128,0,0,0,0,0,0,0>> >>)
ROp(z) == CASE z <= 2 -> [Blank EXCEPT !.op = "digest", !.xs = RCont(z)]
            [] z = 3 -> [Blank EXCEPT !.op = "digest", !.xs = Pick(<< <<>>, <<128>>, <<97, 98, 99>>, <<0>> >>)]
            [] z = 4 -> [Blank EXCEPT !.op = "empty", !.xs = <<128>>]
            [] z <= 6 -> [Blank EXCEPT !.op = "pubkey", !.xs = RCont(z)]
            [] z <= 10 -> [Blank EXCEPT !.op = "code", !.xs = RCont(z), !.n = RNonce(z), !.f = Pick(<<"asset", "app", "library", "native">>)]
            [] z = 11 -> ReadT(Pick(<<"hash", "user", "contract", "address">>),
                               Text(Pick(<< <<>>, <<0, 34>> >>), Pick(<<16, 32, 33, 34, 35, 0>>), Pick(<<21, 21, 32, 20>>),
                                    Pick(<<"lower", "upper", "mixed">>), Pick(<<"none", "none", "odd", "last", "tail">>)))
            [] OTHER -> ReadB(Pick(<<"hash", "user", "contract", "address">>), Bytes(Pick(<<16, 32, 33, 34, 35, 0>>), Pick(<<21, 21, 32, 20>>)))
RandNext == /\ Mode = "random" /\ Len(ops) < MaxOps /\ UNCHANGED <<dig, done>>
            /\ \E k \in {RandomElement(1..12)} : ops' = Append(ops, ROp(k))
GDone == /\ Mode = "random" /\ Len(ops) = MaxOps /\ ~done
         /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<dig, ops>>
GNext == SmallNext \/ RandNext \/ GDone
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
