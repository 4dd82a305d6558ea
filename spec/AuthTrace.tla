----------------------------- MODULE AuthTrace -----------------------------
(* Compares what the server did with requests with what Auth.tla says.      *)
(* The file S3_TRACE has keys and cases; a case is a request with            *)
(*   obs    "accepted" if the storage was called (exactly once), "refused" if *)
(*          it was not and the status was an error, otherwise something else *)
(*   want   "" or the verdict the generator meant to produce (a self-check)  *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

INSTANCE Auth

Data == JsonDeserialize(IOEnv.S3_TRACE)
C == Data.cases
Keys == Data.keys

VARIABLE i
Init == i = 0

Idx(v) == CASE v = "accept" -> 1 [] v = "refuse" -> 2 [] OTHER -> 3
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

Fits(v, obs) == CASE v = "accept" -> obs = "accepted"
                  [] v = "refuse" -> obs = "refused"
                  [] OTHER -> obs \in {"accepted", "refused"}

Judge(n) ==
  LET v == Verdict(C[n], Keys)
  IN /\ TLCSet(Idx(v), TLCGet(Idx(v)) + 1)
     /\ IF Fits(v, C[n].obs) THEN TRUE ELSE PrintT(<<"BAD", n, v, C[n].obs>>)
     /\ IF C[n].want \in {"", v} THEN TRUE ELSE PrintT(<<"GENERATOR", n, v, C[n].want>>)

Next == i < Len(C) /\ (Judge(i + 1) = TRUE) /\ i' = i + 1
Spec == Init /\ [][Next]_i

Accepted == TLCGet("distinct") = Len(C) + 1 /\ PrintT(<<"COUNT", TLCGet(1), TLCGet(2), TLCGet(3)>>)
=============================================================================
