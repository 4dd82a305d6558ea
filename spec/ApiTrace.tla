----------------------------- MODULE ApiTrace ------------------------------
(* Compares requests executed on the real service, with a storage backend    *)
(* that records, with Api.tla.                                               *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
INSTANCE Api

T == JsonDeserialize(IOEnv.S3_TRACE)
C == T.cases
Kinds == RangeOf(T.aspects)
VARIABLE i
Init == i = 0
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

Idx(c) == IF c.calls # <<>> THEN 1 ELSE IF Resource(c.path).kind \in {"root", "bucket", "object"} THEN 2 ELSE 3
\* what the property at hand is about
Aspect(w) == IF w \in {"response"} THEN "response"
             ELSE IF w \in {"operation", "called twice", "carried out", "refused", "success without operation"} THEN "operation"
             ELSE IF w \in {"address accepted", "address refused", "name code", "key code"} THEN "name"
             ELSE IF w \in {"field bucket", "field key"} THEN "address"
             ELSE IF w \in {"status", "content", "error"} \/ \E p \in {"element ", "header "} : Len(w) > Len(p) /\ SubSeq(w, 1, Len(p)) = p THEN "output"
             ELSE "data"
Judge(n) ==
  LET c == C[n]
      w == {x \in (IF c.fs THEN WrongFs(c) ELSE Wrong(c)) : Aspect(x) \in Kinds}
  IN /\ TLCSet(Idx(c), TLCGet(Idx(c)) + 1)
     /\ IF w = {} THEN TRUE ELSE PrintT(<<"BAD", n, ToString(w)>>)

Next == i < Len(C) /\ (Judge(i + 1) = TRUE) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Accepted == TLCGet("distinct") = Len(C) + 1 /\ PrintT(<<"COUNT", TLCGet(1), TLCGet(2), TLCGet(3)>>)
=============================================================================
