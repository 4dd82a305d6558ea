------------------------------ MODULE Chunked ------------------------------
(* The body of a STREAMING-AWS4-HMAC-SHA256-PAYLOAD upload.                 *)
(*                                                                          *)
(*    body  ::=  chunk* final                                               *)
(*    chunk ::=  size ";chunk-signature=" signature CRLF data CRLF          *)
(*    final ::=  the chunk of size 0                                        *)
(*                                                                          *)
(* Signatures are symbolic: terms is the sequence of all signatures made    *)
(* with the key, date and region of the request, each a record              *)
(*    hex    how it is written        prev   the signature before it        *)
(*    data   the bytes that it signs                                        *)
(* and a signature that is not there was made by nobody.                    *)
EXTENDS Bytes

CONSTANTS SigLen,      \* length of a signature
          Keyword      \* what stands between the size and the signature

CR == 13  LF == 10
CRLF == <<CR, LF>>

\* lower case hexadecimal, no leading zeros: what a client writes
HexPlain(s) == s # <<>> /\ (\A i \in DOMAIN s : IsDigit(s[i]) \/ s[i] \in 97..102) /\ (Len(s) > 1 => s[1] # 48)
HexAny(s) == s # <<>> /\ \A i \in DOMAIN s : IsHexDigit(s[i])
HexValue(s) == FoldLeft(LAMBDA acc, x : acc * 16 + HexVal(x), 0, s)

\* one chunk at position i: its fields, or ok = FALSE
ChunkAt(body, i) ==
  LET lf == IndexFrom(body, LF, i)
      semi == IF lf = 0 THEN 0 ELSE IndexFrom(body, Keyword[1], i)
      size == SubSeq(body, i, semi - 1)
      want == (semi - i) + Len(Keyword) + SigLen + 2      \* length of the line
      sig == SubSeq(body, semi + Len(Keyword), semi + Len(Keyword) + SigLen - 1)
  IN IF /\ lf # 0 /\ semi # 0 /\ semi < lf
        /\ lf - i + 1 = want
        /\ SubSeq(body, semi, semi + Len(Keyword) - 1) = Keyword
        /\ body[lf - 1] = CR
        /\ HexAny(size) /\ Len(NoZeros(size)) <= 7
     THEN [ok |-> TRUE, plain |-> HexPlain(size), sig |-> sig, from |-> lf + 1, size |-> HexValue(size)]
     ELSE [ok |-> FALSE]

Fail == [v |-> "fail", data |-> <<>>]

RECURSIVE DecodeAt(_, _, _, _, _, _)
DecodeAt(body, terms, i, prev, out, plain) ==
  LET c == ChunkAt(body, i)
      end == c.from + c.size                    \* first position after the data
      data == SubSeq(body, c.from, end - 1)
  IN IF ~c.ok THEN Fail
     ELSE IF end - 1 > Len(body) THEN Fail
     ELSE IF ~\E k \in DOMAIN terms : terms[k].hex = c.sig /\ terms[k].prev = prev /\ terms[k].data = data THEN Fail
     ELSE IF c.size = 0
          \* what follows the final chunk does not count
          THEN [v |-> IF plain /\ c.plain /\ SubSeq(body, end, Len(body)) = CRLF THEN "ok" ELSE "free", data |-> out]
     ELSE IF end + 1 > Len(body) THEN Fail
     ELSE IF SubSeq(body, end, end + 1) # CRLF THEN Fail
     ELSE DecodeAt(body, terms, end + 2, c.sig, out \o data, plain /\ c.plain)

\* the meaning of a whole body: the data it stands for ("ok"), a failure, or
\* "free": spelled in a way that may be refused, but if it is accepted it means data
Decode(body, seed, terms) == DecodeAt(body, terms, 1, seed, <<>>, TRUE)
=============================================================================
