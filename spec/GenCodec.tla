------------------------------ MODULE GenCodec ------------------------------
(* Generates objects: a base object and objects that differ from it in one   *)
(* leaf field (exhaustive: every kind, variant, field and code), random      *)
(* walks that change fields, and alterations of encodings.                   *)
EXTENDS Codec, Json
CONSTANTS Mode, MaxOps, Base, Part
Used == IF Part = "messages" THEN DOMAIN MsgSchema ELSE DOMAIN ObjSchema
VARIABLES ops, done, obj, pos
gvars == <<wire, names, ops, done, obj, pos>>

Blank == [op |-> "", kind |-> "", var |-> "", f |-> <<>>, how |-> "", at |-> 0, val |-> 0]
Put(o) == [Blank EXCEPT !.op = "put", !.kind = o.kind, !.var = o.var, !.f = o.f]
None == [kind |-> "", var |-> "", f |-> <<>>]
BaseOf(k, v, b) == [kind |-> k, var |-> v, f |-> [i \in 1..Len(Schema[k][v]) |-> b % Size[Schema[k][v][i]]]]
GInit == Init /\ ops = <<>> /\ done = FALSE /\ obj = None /\ pos = <<0, 0>>

(* ---- exhaustive: one behaviour for each kind, variant and base: every leaf field takes every value.  The abstract *)
(* encoder (the object itself as bytes) keeps the bijection.                                                         *)
Step(o) == Encode(o, "abstract", <<o.var>> \o o.f) /\ ops' = Append(ops, Put(o))
SmallNext ==
    /\ Mode = "small" /\ UNCHANGED done
    /\ \/ /\ obj = None
          /\ \E k \in Used : \E v \in DOMAIN Schema[k] : \E b \in Base : obj' = BaseOf(k, v, b) /\ Step(obj') /\ pos' = <<1, 0>>
       \/ /\ obj # None /\ pos[1] <= Len(obj.f) /\ UNCHANGED obj
          /\ LET i == pos[1] c == pos[2] n == Size[Types(obj)[i]] IN
             /\ pos' = IF c + 1 < n THEN <<i, c + 1>> ELSE <<i + 1, 0>>
             /\ IF c = obj.f[i] THEN UNCHANGED <<wire, names, ops>> ELSE Step([obj EXCEPT !.f[i] = c])
PrintAll == (Mode = "small" /\ obj' # None /\ pos'[1] > Len(obj'.f)) => PrintT("BEH " \o ToJson(ops'))
view == <<obj, pos>>

(* ---- random ---- *)
Pick(seq) == seq[RandomElement(1..Len(seq))]
RObj(z) == LET k == RandomElement(Used) IN LET v == RandomElement(DOMAIN Schema[k]) IN <<k, v>>
RFill(k, v) == [kind |-> k, var |-> v, f |-> [i \in 1..Len(Schema[k][v]) |-> RandomElement(0..(Size[Schema[k][v][i]] - 1))]]
RChange(o) == LET i == RandomElement(1..Len(o.f)) IN LET c == RandomElement(0..(Size[Types(o)[i]] - 1)) IN <<i, c>>
RSwap(o) == RandomElement({p \in (1..Len(o.f)) \X (1..Len(o.f)) : Types(o)[p[1]] = Types(o)[p[2]]})
RandNext ==
    /\ Mode = "random" /\ Len(ops) < MaxOps /\ UNCHANGED <<done, wire, names, pos>>
    /\ IF obj = None
       THEN \E kv \in {RObj(ops)} : \E o \in {RFill(kv[1], kv[2])} : obj' = o /\ ops' = Append(ops, Put(o))
       ELSE \E c \in {Pick(<<"change", "change", "change", "swap", "variant", "fresh", "alter", "alter", "alter", "sweep">>)} :
            CASE c = "change" -> \E ch \in {RChange(obj)} : obj' = [obj EXCEPT !.f[ch[1]] = ch[2]] /\ ops' = Append(ops, Put(obj'))
              [] c = "swap" -> \E p \in {RSwap(obj)} : obj' = [obj EXCEPT !.f[p[1]] = obj.f[p[2]], !.f[p[2]] = obj.f[p[1]]] /\ ops' = Append(ops, Put(obj'))
              [] c = "variant" -> \E v \in {RandomElement(DOMAIN Schema[obj.kind])} : \E o \in {RFill(obj.kind, v)} :
                                  \* keep the leading fields as far as they are of the same types
                                  obj' = [o EXCEPT !.f = [i \in 1..Len(o.f) |-> IF i <= Len(obj.f) /\ Types(o)[i] = Types(obj)[IF i <= Len(obj.f) THEN i ELSE 1] THEN obj.f[i] ELSE o.f[i]]]
                                  /\ ops' = Append(ops, Put(obj'))
              [] c = "fresh" -> \E o \in {RFill(obj.kind, obj.var)} : obj' = o /\ ops' = Append(ops, Put(o))
              [] c = "alter" -> \E h \in {Pick(<<"trunc", "flip", "set", "insert", "append", "remove", "dup", "swap", "cross", "noise", "nest">>)},
                                   a \in {RandomElement(0..999)}, x \in {RandomElement(0..255)} :
                                UNCHANGED obj /\ ops' = Append(ops, [Blank EXCEPT !.op = "alter", !.kind = obj.kind, !.how = h, !.at = a, !.val = x])
              [] c = "sweep" -> UNCHANGED obj /\ ops' = Append(ops, [Blank EXCEPT !.op = "sweep", !.kind = obj.kind, !.how = Pick(<<"trunc", "set", "remove", "insert">>)])
GDone == /\ Mode = "random" /\ Len(ops) = MaxOps /\ ~done
         /\ PrintT("BEH " \o ToJson(ops)) /\ done' = TRUE /\ UNCHANGED <<wire, names, ops, obj, pos>>
GNext == SmallNext \/ RandNext \/ GDone
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
