------------------------------- MODULE Names --------------------------------
(* What the path of a request names.                                        *)
EXTENDS Bytes
LOCAL INSTANCE Auth

NameChar(x) == IsLower(x) \/ IsDigit(x) \/ x \in {45, 46}
Edge(x) == IsLower(x) \/ IsDigit(x)
PXn == <<120, 110, 45, 45>>

\* four groups of digits; as an IPv4 address is written, they are at most 255 and have no leading zeros
IpLike(n) == LET g == SplitB(n, 46) IN Len(g) = 4 /\ \A i \in 1..4 : AllDigits(g[i])
IpExact(n) == IpLike(n) /\ LET g == SplitB(n, 46) IN \A i \in 1..4 : Len(g[i]) <= 3 /\ Dec(g[i]) <= 255 /\ (Len(g[i]) > 1 => g[i][1] # 48)

\* "ok": a bucket name, "bad": not one, "free": the rules do not say
BucketName(n) ==
  IF \/ Len(n) < 3 \/ Len(n) > 63
     \/ \E i \in DOMAIN n : ~NameChar(n[i])
     \/ ~Edge(n[1]) \/ ~Edge(n[Len(n)])
     \/ IpExact(n) \/ IsPfx(PXn, n)
  THEN "bad"
  ELSE IF IpLike(n) THEN "free" ELSE "ok"

MaxKey == 1024
KeyOk(k) == Len(k) <= MaxKey /\ Utf8Ok(k)

\* the resource of a path: kind, and bucket and key where there are
Res(kind, b, k) == [kind |-> kind, bucket |-> b, key |-> k]
Resource(p) ==
  IF p = <<>> \/ p[1] # Slash THEN Res("refused", <<>>, <<>>)
  ELSE IF ~PctOk(p) THEN Res("free", <<>>, <<>>)
  ELSE LET d == PathDecode(p)
           r == Drop(d, 1)
           i == Index(r, Slash)
           b == IF i = 0 THEN r ELSE SubSeq(r, 1, i - 1)
           k == IF i = 0 THEN <<>> ELSE Drop(r, i)
           raw == LET q == Drop(p, 1) j == Index(q, Slash) IN IF j = 0 THEN Len(q) ELSE j - 1
           v == BucketName(b)
       IN IF ~Utf8Ok(d) THEN Res("refused", <<>>, <<>>)
          ELSE IF r = <<>> THEN Res("root", <<>>, <<>>)
          ELSE IF PathDecode(SubSeq(p, 2, raw + 1)) # b THEN Res("free", <<>>, <<>>)      \* an encoded slash in the first segment
          ELSE IF v = "bad" THEN Res("name", <<>>, <<>>)
          ELSE IF v = "free" THEN Res("free", <<>>, <<>>)
          ELSE IF k = <<>> THEN Res("bucket", b, <<>>)
          ELSE IF Len(k) > MaxKey THEN Res("long", <<>>, <<>>)
          ELSE Res("object", b, k)

\* a copy source: bucket/key, percent-encoded, with or without a leading slash
CopySource(v) ==
  IF ~PctOk(v) THEN Res("bad", <<>>, <<>>)
  ELSE LET d0 == PathDecode(v)
           d == IF d0 # <<>> /\ d0[1] = Slash THEN Drop(d0, 1) ELSE d0
           i == Index(d, Slash)
           b == SubSeq(d, 1, i - 1)
           k == Drop(d, i)
       IN IF ~Utf8Ok(d0) \/ i = 0 THEN Res("bad", <<>>, <<>>)
          ELSE IF k = <<>> \/ BucketName(b) = "bad" THEN Res("bad", <<>>, <<>>)
          ELSE IF \E j \in DOMAIN v : v[j] = 63 THEN Res("free", <<>>, <<>>)          \* a version
          ELSE IF BucketName(b) = "free" THEN Res("free", <<>>, <<>>)
          ELSE IF Len(k) > MaxKey THEN Res("bad", <<>>, <<>>)
          ELSE Res("object", b, k)
=============================================================================
