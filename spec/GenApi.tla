-------------------------------- MODULE GenApi ---------------------------------
EXTENDS Api, Json
CONSTANTS Mode, MaxOps
VARIABLES ops, done
gvars == <<chain, pool, dig, ops, done>>

(* ---- values ---- *)
Fill(first, n) == [i \in 1..n |-> IF i = 1 THEN first ELSE (i * 37 + 160) % 256]
HashB(k) == Fill(k, 32)
AddrB(k) == <<IF k < 5 THEN 16 ELSE 32>> \o Fill(k, 20)
Upper(d) == [i \in 1..Len(d) |-> d[i] + 16]
Hex(b) == Shown(b)
With0x(d) == <<0, 34>> \o d
N8(a, b) == <<a, 0, 0, 0, 0, 0, 0, b>>
Hdr(i) == [id |-> N8(0, i), chain |-> HashB(1), pre |-> HashB(10 + i), time |-> N8(i + 1, 255), order |-> HashB(20 + i),
           confirm |-> [k \in 1..i |-> HashB(30 + k)], state |-> HashB(0), receipt |-> [k \in 1..(2 - (i % 3)) |-> HashB(40 + k)],
           cycles |-> N8(128, i), prop |-> AddrB(i % 3), ver |-> N8(0, 200 + i), txs |-> [k \in 1..i |-> HashB(50 + k)]]
World(i) == {[a |-> AddrB(1), s |-> HashB(3), v |-> <<i + 1>>], [a |-> AddrB(2), s |-> HashB(3), v |-> <<0, 1, 0>>],
             [a |-> AddrB(1), s |-> HashB(4), v |-> Fill(255, 32)], [a |-> AddrB(6), s |-> HashB(4), v |-> <<16, i>>],
             [a |-> AddrB(2), s |-> HashB(4), v |-> <<0>>]}
Ep(i) == [h |-> Hdr(i), w |-> World(i)]

(* ---- texts ---- *)
Spoilt(d) == {Append(d, 1), Append(d, 32), <<32>> \o Tail(d), Append(d, 35), <<0, 37>> \o d, <<0, 34, 0, 34>> \o d, SubSeq(d, 3, Len(d)), <<>>,
              <<0, 34>>, SubSeq(d, 1, Len(d) - 1), Append(SubSeq(d, 1, Len(d) - 1), 33), <<36>> \o d}
Fine(d) == {d, Upper(d), With0x(d), With0x(Upper(d))}
TextsOf(b) == Fine(Hex(b)) \cup Spoilt(Hex(b))
Nums == {<<>>, <<0>>, <<1>>, <<2>>, <<0, 34, 1>>, <<0, 37, 1>>, <<0, 34>>, Hex(N8(0, 1)), <<0>> \o Hex(N8(0, 1)), Hex(N8(255, 255)), <<1>> \o Hex(N8(0, 0)),
         <<32>>, <<36, 1>>, <<36, 36, 1>>, <<36>>, <<35, 1>>, <<10>>, <<26, 0>>, <<1, 35>>, <<33>>}
AddrTexts == TextsOf(AddrB(1)) \cup {Hex(AddrB(2)), Hex(AddrB(3)), Hex(AddrB(6)), With0x(Upper(AddrB(6))), Hex(Fill(0, 21)), Hex(HashB(1))}
HashTexts == TextsOf(HashB(3)) \cup {Hex(HashB(4)), Hex(HashB(5)), Hex(AddrB(1)), Hex(Fill(3, 33))}
AmountTexts == {<<>>, <<0>>, <<0, 0>>, <<0, 34>>, <<0, 1>>, <<0, 34, 0, 10>>, <<1>>, <<0, 0, 0, 1>>, Hex(Fill(255, 32)), Hex(Fill(1, 40)), Upper(Hex(Fill(200, 3))), <<32, 0>>, <<36, 1>>}
CodeTexts == {<<>>, <<0, 0>>, Hex(Fill(7, 5)), With0x(Upper(Hex(Fill(7, 5)))), <<1>>, <<0, 32>>, Hex(Fill(1, 70))}
KeyTexts == {Hex(Fill(1, 32)), With0x(Upper(Hex(Fill(1, 32)))), Hex([i \in 1..32 |-> 0]), Hex(Fill(1, 31)), Hex(Fill(1, 33)), <<>>, Append(Hex(Fill(1, 32)), 1), Hex(Fill(2, 32))}

Blank == [op |-> "", none |-> TRUE, id |-> <<>>, a |-> Hex(AddrB(1)), s |-> Hex(HashB(3)),
          kind |-> "transfer", unsafe |-> FALSE, refuse |-> FALSE, chain |-> Hex(HashB(1)), nonce |-> With0x(Hex(HashB(60))),
          timeout |-> <<0, 34, 2, 0>>, feeasset |-> Hex(HashB(3)), cycle |-> Hex(N8(1, 2)), to |-> Hex(AddrB(2)), asset |-> Hex(HashB(4)),
          amount |-> <<1, 2, 3, 4>>, code |-> Hex(Fill(9, 6)), ct |-> "asset", hash |-> With0x(Hex(HashB(70))), pubkey |-> Hex(Fill(2, 33)),
          sig |-> Hex(Fill(5, 64)), key |-> Hex(Fill(1, 32))]
R(o) == [Blank EXCEPT !.op = o]
EpochOp(e) == [op |-> "epoch", h |-> e.h, w |-> e.w]

GInit == AInit /\ ops = <<>> /\ done = FALSE
Do(o) == ops' = Append(ops, o)
DoStore(e) == Store(e) /\ Do(EpochOp(e))
Ask(r) == UNCHANGED <<chain, pool, dig>> /\ Do(r)
DoSend(r) == Send(r) /\ Do(r)

(* ---- every form of every argument, after two epochs ---- *)
Sends == {[R("send") EXCEPT !.kind = k, !.unsafe = u, !.refuse = f, !.ct = c] : k \in {"transfer", "deploy"}, u, f \in BOOLEAN, c \in {"asset", "app", "library", "wrong"}}
Base(k, u) == [R("send") EXCEPT !.kind = k, !.unsafe = u]
Varied(b) ==
    {[b EXCEPT !.chain = t] : t \in HashTexts} \cup {[b EXCEPT !.nonce = t] : t \in HashTexts} \cup {[b EXCEPT !.feeasset = t] : t \in HashTexts}
    \cup {[b EXCEPT !.timeout = t] : t \in Nums} \cup {[b EXCEPT !.cycle = t] : t \in Nums}
    \cup (IF b.kind = "transfer" THEN {[b EXCEPT !.to = t] : t \in AddrTexts} \cup {[b EXCEPT !.asset = t] : t \in HashTexts}
                                      \cup {[b EXCEPT !.amount = t] : t \in AmountTexts}
          ELSE {[b EXCEPT !.code = t] : t \in CodeTexts})
    \cup (IF b.unsafe THEN {[b EXCEPT !.key = t] : t \in KeyTexts}
          ELSE {[b EXCEPT !.hash = t] : t \in HashTexts} \cup {[b EXCEPT !.pubkey = t] : t \in CodeTexts} \cup {[b EXCEPT !.sig = t] : t \in CodeTexts})
SendForms == Sends \cup UNION {Varied(Base(k, u)) : k \in {"transfer", "deploy"}, u \in BOOLEAN}
IdForms == {[Blank EXCEPT !.op = "latest"]} \cup {[Blank EXCEPT !.op = "latest", !.none = FALSE, !.id = t] : t \in Nums}
BalForms == {[Blank EXCEPT !.op = "balance", !.a = t] : t \in AddrTexts} \cup {[Blank EXCEPT !.op = "balance", !.s = t] : t \in HashTexts}
            \cup {[Blank EXCEPT !.op = "balance", !.none = FALSE, !.id = t] : t \in Nums}
            \cup {[Blank EXCEPT !.op = "balance", !.none = n, !.id = <<i>>, !.a = Hex(AddrB(a)), !.s = Hex(HashB(s))] :
                    n \in BOOLEAN, i \in {0, 1}, a \in {1, 2, 3, 6}, s \in {3, 4, 5}}
SmallNext ==
    /\ Mode = "small" /\ UNCHANGED done
    /\ \/ ops = <<>> /\ (\E r \in IdForms \cup BalForms : Ask(r))
       \/ Len(ops) < 2 /\ Len(chain) = Len(ops) /\ DoStore(Ep(Len(ops)))
       \/ Len(ops) = 2 /\ Len(chain) = 2 /\ (\E r \in IdForms \cup BalForms : Ask(r))
       \/ Len(ops) = 2 /\ Len(chain) = 2 /\ (\E r \in SendForms : DoSend(r))
PrintAll == (Mode = "small" /\ ops' # ops /\ ops'[Len(ops')].op # "epoch") => PrintT("BEH " \o ToJson(ops'))
Truth == \A i \in 1..Len(ops) : ops[i].op = "latest" => AnswersAreStored(ops[i])

(* ---- random ---- *)
Pick(seq) == seq[RandomElement(1..Len(seq))]
One(S) == RandomElement(S)
REpoch(z) == LET i == RandomElement(0..6) IN
             [Ep(i) EXCEPT !.w = {[a |-> AddrB(Pick(<<1, 2, 3, 6>>)), s |-> HashB(Pick(<<3, 4>>)),
                                   v |-> Fill(Pick(<<0, 1, 255>>), Pick(<<1, 2, 8, 9, 32>>))]} \cup
                                  {[a |-> AddrB(4), s |-> HashB(3), v |-> <<z>>], [a |-> AddrB(4), s |-> HashB(4), v |-> Fill(z, 16)]}]
RSend(z) == LET b == [Base(Pick(<<"transfer", "deploy">>), Pick(<<TRUE, FALSE>>)) EXCEPT !.refuse = Pick(<<FALSE, FALSE, FALSE, TRUE>>), !.ct = Pick(<<"asset", "app", "library">>)]
                c == [b EXCEPT !.chain = One(Fine(Hex(HashB(z % 200)))), !.nonce = One(Fine(Hex(HashB(7 + z)))), !.timeout = One(Nums), !.cycle = Pick(<< <<1>>, <<0, 34, 9, 9>>, Hex(N8(1, 2)) >>),
                               !.to = One(Fine(Hex(AddrB(Pick(<<0, 1, 2>>))))), !.asset = One(Fine(Hex(HashB(4)))), !.amount = One(AmountTexts),
                               !.code = Pick(<<Hex(Fill(7, 5)), <<>>, Hex(Fill(z % 200, 3))>>), !.key = Pick(<<Hex(Fill(1, 32)), With0x(Upper(Hex(Fill(3, 32))))>>),
                               !.hash = One(Fine(Hex(HashB(70)))), !.feeasset = One(Fine(Hex(HashB(z % 100))))]
            IN c
RandNext ==
    /\ Mode = "random" /\ Len(ops) < MaxOps /\ UNCHANGED done
    /\ \E k \in {RandomElement(1..10)} :
       CASE k <= 2 -> \E e \in {REpoch(Len(ops))} : DoStore(e)
         [] k <= 5 -> \E r \in {One(BalForms)} : \E i \in {RandomElement(0..6)}, n \in {Pick(<<TRUE, FALSE>>)}, a \in {Pick(<<1, 2, 3, 4, 4, 6>>)}, s \in {Pick(<<3, 4>>)} :
                      Ask(Pick(<<r, [r EXCEPT !.none = n, !.id = <<i>>, !.a = One(Fine(Hex(AddrB(a)))), !.s = One(Fine(Hex(HashB(s))))]>>))
         [] k = 6 -> \E i \in {RandomElement(0..6)}, n \in {Pick(<<TRUE, FALSE>>)} : Ask([R("latest") EXCEPT !.none = n, !.id = <<i>>])
         [] OTHER -> \E r \in {RSend(Len(ops))} : DoSend(r)
GDone == /\ Mode = "random" /\ Len(ops) = MaxOps /\ ~done
         /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<chain, pool, dig, ops>>
GNext == SmallNext \/ RandNext \/ GDone
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
