------------------------------ MODULE S3Trace ------------------------------
(* Trace validation: is every recorded history a behaviour of S3Store?      *)
(* The file named by S3_TRACE holds many histories of events:               *)
(*   op    an operation with its response, nothing else going on             *)
(*   call / ret   begin and end of an operation that overlaps with others    *)
(* An event with q = TRUE prepares the others and is not judged.             *)
(*   crash the server stops, unfinished operations end                       *)
(* Between call and ret an operation takes effect at one point (CopyObject   *)
(* and CompleteMultipartUpload read at one and commit at a later one), which *)
(* TLC searches for.                                                         *)
EXTENDS Sequences, Naturals, FiniteSets, TLC, Json, IOUtils

Data == JsonDeserialize(IOEnv.S3_TRACE)

TKeyBytes == Data.keys
TSegLen == [i \in 1..Len(Data.seglen) |-> Data.seglen[i]]

INSTANCE S3Store WITH KeyBytes <- TKeyBytes, SegLen <- TSegLen

H == Data.hist
Ev(h) == H[h].ev

\* the aspects that decide, for all operations or for single ones
Aspects == {Data.aspects[i] : i \in DOMAIN Data.aspects}
OpAspects == {<<Data.opaspects[i][1], Data.opaspects[i][2]>> : i \in DOMAIN Data.opaspects}
Judged(a, bad) == {x \in bad : x \in Aspects \/ <<a.op, x>> \in OpAspects}

VARIABLES h, l, st, pend, div
vars == <<h, l, st, pend, div>>

NoPend == [i \in {} |-> 0]

Init == /\ h \in DOMAIN H
        /\ l = 1
        /\ st = Empty
        /\ pend = NoPend
        /\ div = FALSE

Cur == Ev(h)[l]
More == l <= Len(Ev(h))
Step == /\ l' = l + 1
        /\ h' = h
        /\ TLCSet(h, IF TLCGet(h) < l THEN l ELSE TLCGet(h))

\* an event that prepares: if it goes wrong the history proves nothing
Quiet(e) == "q" \in DOMAIN e /\ e.q

\* reports a mismatch of the first kind met, for the replay file
Tell(x, a) == PrintT(<<"MISMATCH", h, l, x, a.op>>)

\* the history can no longer be judged: an aspect that does not decide was wrong
Diverge == div' = TRUE /\ UNCHANGED <<st, pend>>

Op == /\ More /\ ~div /\ Cur.t = "op"
      /\ LET x == Apply(st, Cur.a, Cur.r, NoMem)
             j == Judged(Cur.a, x.bad)
         IN IF j # {} /\ ~Quiet(Cur) THEN Tell(j, Cur.a) /\ FALSE
            ELSE IF j # {} \/ "st" \in x.bad \/ "uid" \in x.bad \/ "report" \in x.bad THEN Diverge
            ELSE st' = x.next /\ UNCHANGED <<pend, div>>
      /\ Step

Call == /\ More /\ ~div /\ Cur.t = "call"
        /\ pend' = (Cur.id :> [a |-> Cur.a, r |-> Cur.r, ph |-> 1, mem |-> StartMem(st, Cur.a)]) @@ pend
        /\ UNCHANGED <<st, div>>
        /\ Step

Read(i) == /\ pend[i].ph = 1 /\ TwoPhase(pend[i].a) /\ pend[i].r.st # "err"
           /\ ~ReadAll(pend[i].a, pend[i].mem)
           /\ \E m \in Remember(st, pend[i].a, pend[i].mem) :
                pend' = [pend EXCEPT ![i].ph = IF ReadAll(pend[i].a, m) THEN 2 ELSE 1, ![i].mem = m]
           /\ UNCHANGED <<h, l, st, div>>

Commit(i) == /\ pend[i].ph = IF TwoPhase(pend[i].a) /\ pend[i].r.st # "err" THEN 2 ELSE 1
             /\ LET x == Apply(st, pend[i].a, pend[i].r,
                               IF pend[i].ph = 2 THEN pend[i].mem ELSE NoMem)
                    j == Judged(pend[i].a, x.bad)
                IN /\ j = {}
                   /\ IF "st" \in x.bad \/ "uid" \in x.bad \/ "report" \in x.bad
                      THEN Diverge
                      ELSE st' = x.next /\ pend' = [pend EXCEPT ![i].ph = 3] /\ UNCHANGED div
             /\ UNCHANGED <<h, l>>

Ret == /\ More /\ ~div /\ Cur.t = "ret"
       /\ pend[Cur.id].ph = 3
       /\ pend' = [i \in DOMAIN pend \ {Cur.id} |-> pend[i]]
       /\ UNCHANGED <<st, div>>
       /\ Step

Crash == /\ More /\ ~div /\ Cur.t = "crash"
         /\ pend' = NoPend
         /\ UNCHANGED <<st, div>>
         /\ Step

Skip == More /\ div /\ Step /\ UNCHANGED <<st, pend, div>>

Next == Op \/ Call \/ Ret \/ Crash \/ Skip
        \/ (~div /\ \E i \in DOMAIN pend : Read(i) \/ Commit(i))

Spec == Init /\ [][Next]_vars

ASSUME \A i \in DOMAIN H : TLCSet(i, 0)

\* every history was consumed to its end
Failed == {i \in DOMAIN H : TLCGet(i) < Len(Ev(i))}
Accepted == /\ \A i \in Failed : PrintT(<<"REJECTED", i, TLCGet(i) + 1>>)
            /\ Failed = {}
=============================================================================
