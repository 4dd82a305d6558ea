------------------------------- MODULE Memory -------------------------------
(* How much of the bodies a server holds: a window per request, whatever the *)
(* size of the objects.  Clients send and read when they like; the server    *)
(* takes a piece of a body when its window has room, passes pieces on to the *)
(* disk (uploads) or to a client that reads (downloads).  With               *)
(* Mode = "collect" an upload is passed on when it was received completely,  *)
(* with Mode = "push" a download is read without waiting for its client;     *)
(* TLC shows that Bounded fails for both.                                    *)
EXTENDS Naturals, FiniteSets

CONSTANTS Ups, Downs, Size, Window, Mode

\* ---- the obligation, in terms of what can be measured (kilobytes) ----
\* m: peak (memory at most), base (memory with small objects only), conc (requests that were in progress at most), size
Slack == 48 * 1024
PerRequest == 8 * 1024
MemoryWrong(m) == m.peak > m.base + Slack + m.conc * PerRequest

\* ---- the design ----
Reqs == Ups \cup Downs
VARIABLES in, out, read
vars == <<in, out, read>>

Held(i) == in[i] - out[i]
Init == in = [i \in Reqs |-> 0] /\ out = [i \in Reqs |-> 0] /\ read = [i \in Downs |-> 0]

\* in: received from the client, or read from the disk; out: written to the disk, or taken by the client
Take(i) == /\ in[i] < Size
           /\ \/ Held(i) < Window
              \/ i \in Ups /\ Mode = "collect"
              \/ i \in Downs /\ Mode = "push"
           /\ in' = [in EXCEPT ![i] = @ + 1] /\ UNCHANGED <<out, read>>
Pass(i) == /\ Held(i) > 0
           /\ IF i \in Downs THEN out[i] < read[i] ELSE Mode = "collect" => in[i] = Size
           /\ out' = [out EXCEPT ![i] = @ + 1] /\ UNCHANGED <<in, read>>
Read(i) == i \in Downs /\ read[i] < Size /\ read' = [read EXCEPT ![i] = @ + 1] /\ UNCHANGED <<in, out>>
Next == \E i \in Reqs : Take(i) \/ Pass(i) \/ Read(i)
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(R) == IF R = {} THEN 0 ELSE LET i == CHOOSE i \in R : TRUE IN Held(i) + Total(R \ {i})
Bounded == Total(Reqs) <= Window * Cardinality(Reqs)
=============================================================================
