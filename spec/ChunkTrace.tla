---------------------------- MODULE ChunkTrace ----------------------------
(* Compares uploads executed on the real code with Chunked.tla. A case is    *)
(*   body, cut   the bytes that arrived; whether the stream then failed      *)
(*   seed, terms see Chunked                                                 *)
(*   ok          whether the upload was reported as successful               *)
(*   same        whether what is stored is what was stored before            *)
(*   data        what is stored afterwards (only if not same)                *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC

Kw == <<59, 99, 104, 117, 110, 107, 45, 115, 105, 103, 110, 97, 116, 117, 114, 101, 61>>   \* ;chunk-signature=
INSTANCE Chunked WITH SigLen <- 64, Keyword <- Kw

C == JsonDeserialize(IOEnv.S3_TRACE)
VARIABLE i
Init == i = 0

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0) /\ TLCSet(3, 0)
Idx(v) == CASE v = "ok" -> 1 [] v = "fail" -> 2 [] OTHER -> 3

Stored(c, d) == c.ok /\ (c.data = d.data) /\ ~c.same
Nothing(c) == ~c.ok /\ c.same

Judge(n) ==
  LET c == C[n]
      d == Decode(c.body, c.seed, c.terms)
      v == IF c.cut /\ d.v = "ok" THEN "free" ELSE d.v
  IN /\ TLCSet(Idx(v), TLCGet(Idx(v)) + 1)
     /\ IF CASE v = "ok" -> Stored(c, d) [] v = "fail" -> Nothing(c) [] OTHER -> Stored(c, d) \/ Nothing(c)
        THEN TRUE ELSE PrintT(<<"BAD", n, v, c.ok>>)
     /\ IF c.want \in {"", v} THEN TRUE ELSE PrintT(<<"GENERATOR", n, v, c.want>>)

Next == i < Len(C) /\ (Judge(i + 1) = TRUE) /\ i' = i + 1
Spec == Init /\ [][Next]_i
Accepted == TLCGet("distinct") = Len(C) + 1 /\ PrintT(<<"COUNT", TLCGet(1), TLCGet(2), TLCGet(3)>>)
=============================================================================
