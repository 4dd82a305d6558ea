---------------------------- MODULE MemoryTrace -----------------------------
(* Does a server that was measured keep the obligation of Memory?  Events:   *)
(*   base   memory at most, after requests with small objects                *)
(*   mem    memory at most, after requests with objects of the given size    *)
EXTENDS Sequences, Naturals, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.S3_TRACE)
H == Data.hist
Ev(h) == H[h].ev

M == INSTANCE Memory WITH Ups <- {}, Downs <- {}, Size <- 1, Window <- 1, Mode <- "stream", in <- 0, out <- 0, read <- 0

VARIABLES h, l, base
vars == <<h, l, base>>

Init == h \in DOMAIN H /\ l = 1 /\ base = 0
Cur == Ev(h)[l]
Base == Cur.t = "base" /\ base' = Cur.peak
Mem == /\ Cur.t = "mem" /\ base > 0 /\ UNCHANGED base
       /\ IF M!MemoryWrong([peak |-> Cur.peak, base |-> base, conc |-> Cur.conc])
          THEN PrintT(<<"TOOMUCH", h, l, Cur.peak, base>>) /\ FALSE ELSE TRUE
Next == /\ l <= Len(Ev(h))
        /\ Base \/ Mem
        /\ l' = l + 1 /\ h' = h
        /\ TLCSet(h, l)
Spec == Init /\ [][Next]_vars

ASSUME \A i \in DOMAIN H : TLCSet(i, 0)
Failed == {i \in DOMAIN H : TLCGet(i) < Len(Ev(i))}
Accepted == /\ \A i \in Failed : PrintT(<<"REJECTED", i, TLCGet(i) + 1>>)
            /\ Failed = {}
=============================================================================
