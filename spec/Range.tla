------------------------------- MODULE Range -------------------------------
(* What the Range header of a read of an object asks for (RFC 7233, S3).    *)
EXTENDS Bytes

\* more digits than any 64 bit number surely fits: such numbers may also be called invalid
Huge(d) == Len(NoZeros(d)) > 18

\* [k |-> "none" | "bad" | "multi" | "from" | "suffix", first, last, open, huge]
ParseRange(h) ==
  LET p == B("bytes=")
      s == Drop(h, Len(p))
      i == Index(s, 45)
      a == SubSeq(s, 1, i - 1)
      b == SubSeq(s, i + 1, Len(s))
      R(k, f, l, o, hg) == [k |-> k, first |-> f, last |-> l, open |-> o, huge |-> hg]
  IN IF ~IsPfx(p, h) \/ i = 0 THEN R("bad", 0, 0, FALSE, FALSE)
     ELSE IF Index(s, 44) # 0 THEN R("multi", 0, 0, FALSE, FALSE)
     ELSE IF a = <<>> THEN
            IF AllDigits(b) THEN R("suffix", 0, Dec(b), FALSE, Huge(b))
            ELSE R("bad", 0, 0, FALSE, FALSE)
     ELSE IF ~AllDigits(a) \/ (b # <<>> /\ ~AllDigits(b)) THEN R("bad", 0, 0, FALSE, FALSE)
     ELSE IF b = <<>> THEN R("from", Dec(a), 0, TRUE, Huge(a))
     ELSE LET x == NoZeros(a) y == NoZeros(b)
              less == Len(y) < Len(x) \/ (Len(y) = Len(x) /\ BLess(y, x))
          IN IF less THEN R("bad", 0, 0, FALSE, FALSE)
             ELSE R("from", Dec(a), Dec(b), FALSE, Huge(a) \/ Huge(b))

\* what a read with range p of an object of n bytes must give
\*   [k |-> "full"], [k |-> "part", first, last], [k |-> "err", codes]
RangeResult(p, n) ==
  IF p.k = "none" THEN [k |-> "full"]
  ELSE IF p.k = "bad" THEN [k |-> "err", http |-> {400}]
  ELSE IF p.k = "multi" THEN [k |-> "free"]
  ELSE IF p.k = "suffix" THEN
         IF p.last = 0 \/ n = 0 THEN [k |-> "err", http |-> {416} \cup (IF p.huge THEN {400} ELSE {})]
         ELSE [k |-> "part", first |-> n - MinN(p.last, n), last |-> n - 1]
  ELSE IF p.first >= n THEN [k |-> "err", http |-> {416} \cup (IF p.huge THEN {400} ELSE {})]
  ELSE [k |-> "part", first |-> p.first, last |-> IF p.open THEN n - 1 ELSE MinN(p.last, n - 1)]
=============================================================================
