------------------------------ MODULE CodecTrace ------------------------------
(* Each recorded encoding must fit into the bijection of Codec, decoding must *)
(* give the object back, every computed transaction hash must fit, and        *)
(* nothing may panic.                                                         *)
EXTENDS Codec, TraceLib
VARIABLE skip
tvars == <<wire, names, l, skip>>

TInit == Init /\ l = 1 /\ skip = FALSE
TReset == Is("reset") /\ wire' = {} /\ names' = {} /\ skip' = FALSE

Broken == {"err", "panic"}
(* the first encoding, a second encoding of the same object, and what decoding gave *)
EncOk(x) == /\ x[2] \notin Broken /\ x[3] = x[2] /\ x[4] = E.tok
            /\ Fits(E.obj.kind, x[1], E.obj, x[2])
HashOk == \A i \in Idx(E.hs) : E.hs[i] \notin Broken /\ E.hs[i] = E.hs[1] /\ FitsName(Content(E.obj), E.hs[i])
TPut == /\ Is("put") /\ ~skip
        /\ Assert(IsObject(E.obj), "not an object of the specification")
        /\ {E.enc[i][1] : i \in Idx(E.enc)} = Encodings(E.obj.kind)
        /\ LET ok == \A i \in Idx(E.enc) : EncOk(E.enc[i])
               fits == \A i \in Idx(E.enc) : Fits(E.obj.kind, E.enc[i][1], E.obj, E.enc[i][2]) IN
           /\ Focus \in {"C14", "C36"} => ok
           /\ Focus = "C13" => HashOk
           /\ Focus \in {"C15", "C36"} => \A i \in Idx(E.enc) : E.enc[i][4] # "panic"
           /\ wire' = IF Focus \in {"C14", "C36"} THEN wire \cup {[kind |-> E.obj.kind, enc |-> E.enc[i][1], obj |-> E.obj, bytes |-> E.enc[i][2]] : i \in Idx(E.enc)} ELSE wire
           /\ names' = IF E.hs = <<>> THEN names ELSE names \cup {[content |-> Content(E.obj), hash |-> E.hs[1]]}
           /\ UNCHANGED skip
(* altered bytes: an error or an object, and an object survives every encoding *)
TAlter == /\ Is("alter") /\ ~skip
          /\ Focus \in {"C15", "C36"} => \A i \in Idx(E.res) : E.res[i][2] \in {"ok", "err"}
          /\ Focus \in {"C14", "C36"} => \A i \in Idx(E.res) : E.res[i][3]
          /\ UNCHANGED <<wire, names, skip>>
TSweep == /\ Is("sweep") /\ ~skip
          /\ Focus \in {"C15", "C36"} => \A i \in Idx(E.bad) : E.bad[i][1] \in {"ok", "err"}
          /\ Focus \in {"C14", "C36"} => \A i \in Idx(E.bad) : E.bad[i][2]
          /\ UNCHANGED <<wire, names, skip>>
TNext == TReset \/ TPut \/ TAlter \/ TSweep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
