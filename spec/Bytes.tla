------------------------------- MODULE Bytes -------------------------------
(* Byte strings as sequences of numbers 0..255, and a few string functions. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"

CodeOf == TLCEval([ch \in {SubSeq(Printable, i, i) : i \in 1..95} |->
             31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = ch])

\* the bytes of a printable ASCII string
B(s) == TLCEval([i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]])

IsPfx(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
IsSfx(p, s) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

MinN(a, b) == IF a < b THEN a ELSE b
MaxN(a, b) == IF a > b THEN a ELSE b

\* unsigned lexicographic order of byte strings, strict
BLess(a, b) ==
  LET n == MinN(Len(a), Len(b))
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE j \in D : \A k \in D : j <= k IN a[i] < b[i]

\* (no recursion over long strings: TLC needs quadratic time for that)
MinOf(P) == CHOOSE m \in P : \A k \in P : m <= k

\* index of the first occurrence of byte x in s at or after position i, or 0
IndexFrom(s, x, i) == LET P == {j \in i..Len(s) : s[j] = x} IN IF P = {} THEN 0 ELSE MinOf(P)
Index(s, x) == IndexFrom(s, x, 1)

\* split a byte string at every byte x; always at least one element
SplitB(s, x) ==
  LET P == {j \in 1..Len(s) : s[j] = x}
      ps == SetToSortSeq(P, LAMBDA p, q : p < q)
      n == Len(ps)
  IN IF P = {} THEN <<s>>
     ELSE <<SubSeq(s, 1, ps[1] - 1)>>
          \o [i \in 1..n |-> SubSeq(s, ps[i] + 1, IF i = n THEN Len(s) ELSE ps[i + 1] - 1)]

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE JoinB(_, _)
JoinB(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
                  ELSE ss[1] \o sep \o JoinB(Tail(ss), sep)

IsDigit(x) == x \in 48..57
IsUpper(x) == x \in 65..90
IsLower(x) == x \in 97..122
IsAlpha(x) == IsUpper(x) \/ IsLower(x)
IsHexDigit(x) == IsDigit(x) \/ x \in 65..70 \/ x \in 97..102
HexVal(x) == IF IsDigit(x) THEN x - 48 ELSE IF x <= 70 THEN x - 55 ELSE x - 87
LowerB(s) == TLCEval([i \in DOMAIN s |-> IF IsUpper(s[i]) THEN s[i] + 32 ELSE s[i]])
AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : IsDigit(s[i])

\* decimal value of a non-empty digit string, saturated at Cap (TLC has 32 bit numbers)
Cap == 200000000
RECURSIVE DecFrom(_, _, _)
DecFrom(s, i, acc) == IF i > Len(s) THEN acc
                      ELSE IF acc >= 20000000 THEN Cap
                      ELSE DecFrom(s, i + 1, acc * 10 + (s[i] - 48))
Dec(s) == DecFrom(s, 1, 0)

\* remove leading zeros
RECURSIVE NoZeros(_)
NoZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN NoZeros(Tail(s)) ELSE s

RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] \in {32, 9} THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in {32, 9} THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

RangeOf(s) == {s[i] : i \in DOMAIN s}
=============================================================================
