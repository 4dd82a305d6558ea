---------------------------- MODULE ProgressTrace ----------------------------
(* Do recorded executions keep the obligation of Progress?  Events:           *)
(*   set    flags of a request become true                                    *)
(*   quiet  for a long time nothing has happened: no request may be owed      *)
(*          anything then                                                     *)
EXTENDS Sequences, Naturals, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.S3_TRACE)
H == Data.hist
Ev(h) == H[h].ev

P == INSTANCE Progress WITH Reqs <- {}, Pieces <- 1, Parts <- 1, Hold <- "commit", sent <- 0, got <- 0, ph <- 0, lock <- 0,
                            out <- 0, read <- 0, gone <- 0

Flags == {"full", "answered", "willing", "whole", "gone"}
Fresh == [f \in Flags |-> FALSE]

VARIABLES h, l, rs
vars == <<h, l, rs>>

Init == h \in DOMAIN H /\ l = 1 /\ rs = [i \in {} |-> Fresh]

Of(i) == IF i \in DOMAIN rs THEN rs[i] ELSE Fresh
Cur == Ev(h)[l]
Ended(r) == r.gone \/ r.whole

Set == /\ Cur.t = "set"
       /\ LET fs == {Cur.f[i] : i \in DOMAIN Cur.f}
              r == [f \in Flags |-> f \in fs \/ Of(Cur.i)[f]]
          IN rs' = IF Ended(r) THEN [i \in DOMAIN rs \ {Cur.i} |-> rs[i]] ELSE (Cur.i :> r) @@ rs

Owed == {i \in DOMAIN rs : P!Owes(rs[i])}
Quiet == /\ Cur.t = "quiet"
         /\ IF Owed = {} THEN UNCHANGED rs ELSE PrintT(<<"OWED", h, l, CHOOSE i \in Owed : TRUE>>) /\ FALSE

Next == /\ l <= Len(Ev(h))
        /\ Set \/ Quiet
        /\ l' = l + 1 /\ h' = h
        /\ TLCSet(h, l)

Spec == Init /\ [][Next]_vars

ASSUME \A i \in DOMAIN H : TLCSet(i, 0)
Failed == {i \in DOMAIN H : TLCGet(i) < Len(Ev(i))}
Accepted == /\ \A i \in Failed : PrintT(<<"REJECTED", i, TLCGet(i) + 1>>)
            /\ Failed = {}
=============================================================================
