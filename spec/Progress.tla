------------------------------ MODULE Progress ------------------------------
(* What a request may have to wait for: its own client, and nobody else's.   *)
(*                                                                           *)
(* Clients send the pieces of a request, and read the pieces of the answer,  *)
(* when they like, or never (no fairness), or go away.  The server receives  *)
(* what was sent, takes the lock of the store, commits, and answers; these   *)
(* steps it must take in the end (fairness).  Where the server may hold the  *)
(* lock is what matters: Hold = "commit" is the design of the server; with   *)
(* "receive" or "respond" the lock is also held while a client is waited     *)
(* for, and TLC shows that Progress fails.                                   *)
EXTENDS Naturals, FiniteSets

CONSTANTS Reqs, Pieces, Parts, Hold

\* ---- the obligation, in terms of what can be observed ----
\* r: full (received completely), answered (the head of the response was sent), willing (the client reads the response),
\*    whole (the response was delivered completely), gone (the client went away)
Owes(r) == ~r.gone /\ \/ r.full /\ ~r.answered
                      \/ r.answered /\ r.willing /\ ~r.whole

\* ---- the design ----
VARIABLES sent, got, ph, lock, out, read, gone
vars == <<sent, got, ph, lock, out, read, gone>>

None == 0

Init == /\ sent = [i \in Reqs |-> 0]
        /\ got = [i \in Reqs |-> 0]
        /\ ph = [i \in Reqs |-> "new"]
        /\ lock = None
        /\ out = [i \in Reqs |-> 0]
        /\ read = [i \in Reqs |-> 0]
        /\ gone = [i \in Reqs |-> FALSE]

\* clients
Send(i) == ~gone[i] /\ sent[i] < Pieces /\ sent' = [sent EXCEPT ![i] = @ + 1] /\ UNCHANGED <<got, ph, lock, out, read, gone>>
Read(i) == ~gone[i] /\ read[i] < Parts /\ read' = [read EXCEPT ![i] = @ + 1] /\ UNCHANGED <<sent, got, ph, lock, out, gone>>
Leave(i) == ~gone[i] /\ ph[i] # "done" /\ gone' = [gone EXCEPT ![i] = TRUE] /\ UNCHANGED <<sent, got, ph, lock, out, read>>

\* the server
Take(i) == lock = None /\ lock' = i
Start(i) == /\ ph[i] = "new" /\ sent[i] > 0 /\ ~gone[i]
            /\ IF Hold = "receive" THEN Take(i) ELSE UNCHANGED lock
            /\ ph' = [ph EXCEPT ![i] = "receive"]
            /\ UNCHANGED <<sent, got, out, read, gone>>
Receive(i) == /\ ph[i] = "receive" /\ got[i] < sent[i] /\ ~gone[i]
              /\ got' = [got EXCEPT ![i] = @ + 1]
              /\ UNCHANGED <<sent, ph, lock, out, read, gone>>
Commit(i) == /\ ph[i] = "receive" /\ got[i] = Pieces /\ ~gone[i]
             /\ IF Hold = "receive" THEN lock = i /\ UNCHANGED lock ELSE Take(i)
             /\ ph' = [ph EXCEPT ![i] = "commit"]
             /\ UNCHANGED <<sent, got, out, read, gone>>
Answer(i) == /\ ph[i] = "commit"
             /\ lock' = IF Hold = "respond" THEN lock ELSE None
             /\ ph' = [ph EXCEPT ![i] = "respond"]
             /\ UNCHANGED <<sent, got, out, read, gone>>
Respond(i) == /\ ph[i] = "respond" /\ out[i] < read[i] /\ ~gone[i]
              /\ out' = [out EXCEPT ![i] = @ + 1]
              /\ IF out'[i] = Parts THEN ph' = [ph EXCEPT ![i] = "done"] /\ lock' = IF lock = i THEN None ELSE lock
                 ELSE UNCHANGED <<ph, lock>>
              /\ UNCHANGED <<sent, got, read, gone>>
\* what a client that went away leaves
Clean(i) == /\ gone[i] /\ ph[i] \notin {"commit", "done"}
            /\ ph' = [ph EXCEPT ![i] = "done"]
            /\ lock' = IF lock = i THEN None ELSE lock
            /\ UNCHANGED <<sent, got, out, read, gone>>

Next == \E i \in Reqs : Send(i) \/ Read(i) \/ Leave(i) \/ Start(i) \/ Receive(i) \/ Commit(i) \/ Answer(i) \/ Respond(i) \/ Clean(i)

\* the lock is fair
Spec == /\ Init /\ [][Next]_vars
        /\ \A i \in Reqs : /\ SF_vars(Start(i)) /\ WF_vars(Receive(i)) /\ SF_vars(Commit(i)) /\ WF_vars(Answer(i))
                           /\ WF_vars(Respond(i)) /\ WF_vars(Clean(i))

Seen(i) == [full |-> sent[i] = Pieces, answered |-> ph[i] \in {"respond", "done"}, willing |-> read[i] = Parts,
            whole |-> out[i] = Parts, gone |-> gone[i]]

\* a request that is owed something does not stay so
NobodyWaits == \A i \in Reqs : [](Owes(Seen(i)) => <>~Owes(Seen(i)))
Exclusive == Cardinality({i \in Reqs : ph[i] = "commit"}) <= 1
=============================================================================
