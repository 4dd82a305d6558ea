----------------------------- MODULE PostTrace -----------------------------
(* Compares form POST uploads executed on the real code with Post.tla.      *)
(* A case is a request (see Outcome) with ok (a success was reported), and   *)
(* before and after: the objects of the bucket, <<key, content, metadata>>.  *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
INSTANCE Post

C == JsonDeserialize(IOEnv.S3_TRACE)
VARIABLE i
Init == i = 0
ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)

Objs(s) == {<<s[k][1], s[k][2], RangeOf(s[k][3])>> : k \in DOMAIN s}
Kind(o) == IF o.any THEN "free" ELSE IF o.store = {} THEN "refuse" ELSE IF o.refuse THEN "free" ELSE "accept"
Idx(v) == CASE v = "accept" -> 1 [] v = "refuse" -> 2 [] OTHER -> 3

Judge(n) ==
  LET c == C[n]
      o == Outcome(c)
      k == Kind(o)
      b == Objs(c.before)
      a == Objs(c.after)
  IN /\ TLCSet(Idx(k), TLCGet(Idx(k)) + 1)
     /\ IF \/ o.any
           \/ ~c.ok /\ o.refuse /\ a = b
           \/ c.ok /\ \E s \in o.store : a = {x \in b : x[1] # s[1]} \cup {s}
        THEN TRUE ELSE PrintT(<<"BAD", n, k, c.ok, IF a = b THEN "nothing stored" ELSE "stored">>)
     /\ IF c.want \in {"", k} THEN TRUE ELSE PrintT(<<"GENERATOR", n, k, c.want>>)

Next == i < Len(C) /\ (Judge(i + 1) = TRUE) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Accepted == TLCGet("distinct") = Len(C) + 1 /\ PrintT(<<"COUNT", TLCGet(1), TLCGet(2), TLCGet(3)>>)
=============================================================================
