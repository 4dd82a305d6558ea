-------------------------------- MODULE Auth --------------------------------
(* Which requests an S3 server with an authentication provider accepts.     *)
(*                                                                          *)
(* Requests are byte strings, as HTTP carries them. Signatures are symbolic: *)
(* a request comes with the terms that its signatures were made from, and a  *)
(* signature that is not of one of these terms was made by nobody. So        *)
(*    valid signature  <=>  its term is the one this request asks for.       *)
(* A request is a record                                                     *)
(*   method, path, query   byte strings (query without '?'; hasq)            *)
(*   headers               sequence of <<lower case name, value>>            *)
(*   bodyhash              lower case hex SHA-256 of the body                *)
(*   now                   the time: <<days since 1970-01-01, seconds>>      *)
(*   terms                 sequence of [hex, sk, date, region, canon]        *)
(*   form                  sequence of <<name, value>>: fields of a POST form *)
(*   isform                whether the body is such a form                   *)
(*   polok                 whether the form's policy permits the request     *)
(* and keys is a sequence of <<access key, secret key>>.                     *)
EXTENDS Bytes, Lit

Slash == 47  Amp == 38  Eq == 61  Comma == 44  Semi == 59  Space == 32  Pct == 37  Plus == 43

----------------------------------------------------------------------------
(* percent-encoding *)

Unreserved(x) == IsAlpha(x) \/ IsDigit(x) \/ x \in {45, 46, 95, 126}
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 55 + v
PctByte(x) == <<Pct, HexDigit(x \div 16), HexDigit(x % 16)>>

EncByte(x) == IF Unreserved(x) THEN <<x>> ELSE PctByte(x)
EncPath(x) == IF Unreserved(x) \/ x = Slash THEN <<x>> ELSE PctByte(x)
Concat(f(_), s) == FoldLeft(LAMBDA acc, x : acc \o f(x), <<>>, s)
UriEncode(s) == Concat(EncByte, s)
UriEncodePath(s) == Concat(EncPath, s)

\* well formed: every '%' is followed by two hex digits
PctOk(s) == \A i \in DOMAIN s : s[i] = Pct => i + 2 <= Len(s) /\ IsHexDigit(s[i + 1]) /\ IsHexDigit(s[i + 2])
\* decode a well formed string, '+' becomes plus
DecodeWith(s, plus) ==
  LET skip == {i \in DOMAIN s : \E j \in {i - 1, i - 2} : j >= 1 /\ s[j] = Pct /\ PctOk(SubSeq(s, j, MinN(j + 2, Len(s))))}
      \* a '%' that is itself part of an escape can not be: escapes consist of hex digits
      pos == SetToSortSeq(DOMAIN s \ skip, LAMBDA p, q : p < q)
      D(i) == IF s[i] = Pct THEN 16 * HexVal(s[i + 1]) + HexVal(s[i + 2])
              ELSE IF s[i] = Plus THEN plus ELSE s[i]
  IN [k \in 1..Len(pos) |-> D(pos[k])] \o <<>>
PathDecode(s) == DecodeWith(s, Plus)

\* well formed UTF-8
Cont(x) == x \in 128..191
LeadLen(x) == IF x < 128 THEN 1 ELSE IF x \in 194..223 THEN 2 ELSE IF x \in 224..239 THEN 3 ELSE IF x \in 240..244 THEN 4 ELSE 0
Utf8Ok(s) == \A i \in DOMAIN s :
  IF Cont(s[i])
  THEN \E d \in 1..3 : i - d >= 1 /\ LeadLen(s[i - d]) > d /\ \A e \in 1..(d - 1) : Cont(s[i - e])
  ELSE LET n == LeadLen(s[i])
       IN /\ n > 0 /\ i + n - 1 <= Len(s)
          /\ \A e \in 1..(n - 1) : Cont(s[i + e])
          /\ (s[i] = 224 => s[i + 1] >= 160) /\ (s[i] = 237 => s[i + 1] < 160)
          /\ (s[i] = 240 => s[i + 1] >= 144) /\ (s[i] = 244 => s[i + 1] < 144)

----------------------------------------------------------------------------
(* queries *)

SplitPair(p, plus) ==
  LET i == Index(p, Eq)
  IN IF i = 0 THEN <<DecodeWith(p, plus), <<>>>>
     ELSE <<DecodeWith(SubSeq(p, 1, i - 1), plus), DecodeWith(SubSeq(p, i + 1, Len(p)), plus)>>
\* the decoded (name, value) pairs of a query
Pairs(q, plus) == LET ps == SelectSeq(SplitB(q, Amp), LAMBDA p : p # <<>>)
                  IN [i \in DOMAIN ps |-> SplitPair(ps[i], plus)] \o <<>>

PairLess(a, b) == BLess(a[1], b[1]) \/ (a[1] = b[1] /\ BLess(a[2], b[2]))
CanonQuery(pairs) ==
  LET e == [i \in DOMAIN pairs |-> <<UriEncode(pairs[i][1]), UriEncode(pairs[i][2])>>] \o <<>>
      s == SortSeq(e, PairLess)
  IN JoinB([i \in DOMAIN s |-> s[i][1] \o <<Eq>> \o s[i][2]] \o <<>>, <<Amp>>)

Values(pairs, name) == LET m == SelectSeq(pairs, LAMBDA p : p[1] = name) IN [i \in DOMAIN m |-> m[i][2]]

----------------------------------------------------------------------------
(* headers *)

HValues(r, name) == LET m == SelectSeq(r.headers, LAMBDA p : p[1] = name) IN [i \in DOMAIN m |-> m[i][2]] \o <<>>
HasH(r, name) == \E i \in DOMAIN r.headers : r.headers[i][1] = name

\* leading and trailing white space is dropped, inner runs become one space
IsWs(x) == x \in {32, 9}
Collapse(v) ==
  LET keep == {i \in DOMAIN v : ~IsWs(v[i]) \/ (i > 1 /\ ~IsWs(v[i - 1]))}
      pos == SetToSortSeq(keep, LAMBDA p, q : p < q)
      w == [k \in 1..Len(pos) |-> IF IsWs(v[pos[k]]) THEN Space ELSE v[pos[k]]] \o <<>>
  IN IF w # <<>> /\ w[Len(w)] = Space THEN SubSeq(w, 1, Len(w) - 1) ELSE w

CanonHeader(r, name) ==
  LET vs == HValues(r, name)
  IN name \o NColon \o JoinB([i \in DOMAIN vs |-> Collapse(vs[i])] \o <<>>, <<Comma>>) \o <<10>>

\* signed: sequence of names
CanonHeaders(r, signed) == FoldLeft(LAMBDA acc, n : acc \o CanonHeader(r, n), <<>>, signed)

----------------------------------------------------------------------------
(* the canonical request *)

NL == <<10>>
Canonical(r, pairs, signed, payload) ==
  r.method \o NL \o UriEncodePath(PathDecode(r.path)) \o NL \o CanonQuery(pairs) \o NL
  \o CanonHeaders(r, signed) \o NL \o JoinB(signed, <<Semi>>) \o NL \o payload

\* the term a signature has to be made from
Term(sk, date, region, canon) == [sk |-> sk, date |-> date, region |-> region, canon |-> canon]
SignedAs(r, hex, t) == \E i \in DOMAIN r.terms :
  /\ r.terms[i].hex = hex
  /\ Term(r.terms[i].sk, r.terms[i].date, r.terms[i].region, r.terms[i].canon) = t
SecretOf(keys, ak) == {keys[i][2] : i \in {i \in DOMAIN keys : keys[i][1] = ak}}

\* the form yyyymmddThhmmssZ
Num(d, i, j) == Dec(SubSeq(d, i, j))
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DateForm(d) == Len(d) = 16 /\ d[9] = 84 /\ d[16] = 90 /\ \A i \in (1..16) \ {9, 16} : IsDigit(d[i])
\* and it is a time that exists
DateOk(d) == /\ DateForm(d) /\ Num(d, 1, 4) >= 1970 /\ Num(d, 5, 6) \in 1..12 /\ Num(d, 7, 8) \in 1..DaysIn(Num(d, 1, 4), Num(d, 5, 6))
             /\ Num(d, 10, 11) < 24 /\ Num(d, 12, 13) < 60 /\ Num(d, 14, 15) < 60
\* days from 1970-01-01 and seconds of the day
DayNo(y, m, d) == LET z == y - 1
                      md == FoldLeft(LAMBDA acc, k : acc + (IF k < m THEN DaysIn(y, k) ELSE 0), 0, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>)
                  IN 365 * (y - 1970) + (z \div 4 - 1969 \div 4) - (z \div 100 - 1969 \div 100) + (z \div 400 - 1969 \div 400) + md + d - 1
Time(d) == <<DayNo(Num(d, 1, 4), Num(d, 5, 6), Num(d, 7, 8)), 3600 * Num(d, 10, 11) + 60 * Num(d, 12, 13) + Num(d, 14, 15)>>
\* whether time a is before time b plus some seconds (TLC's integers have 32 bits)
CmpPlus(a, b, secs) ==
  LET s == b[2] + (secs % 86400)
      e == <<b[1] + secs \div 86400 + s \div 86400, s % 86400>>
  IN IF a = e THEN "same" ELSE IF a[1] < e[1] \/ (a[1] = e[1] /\ a[2] < e[2]) THEN "before" ELSE "after"

\* access key / date / region / s3 / aws4_request
ParseCred(c) ==
  LET s == SplitB(c, Slash)
  IN IF Len(s) = 5 /\ s[4] = NS3 /\ s[5] = NReq
     THEN [ok |-> TRUE, ak |-> s[1], date |-> s[2], region |-> s[3]]
     ELSE [ok |-> FALSE]

Sorted(names) == \A i \in 1..(Len(names) - 1) : BLess(names[i], names[i + 1])
LowerNames(names) == \A i \in DOMAIN names : names[i] # <<>> /\ LowerB(names[i]) \o <<>> = names[i]

\* x-amz-* headers change the meaning of a request, so they must be signed
UnsignedAmz(r, signed) == \E i \in DOMAIN r.headers :
  LET n == r.headers[i][1] IN IsPfx(NAmz, n) /\ n # Sha /\ n \notin RangeOf(signed)

\* what every server can be expected to deal with
PlainValue(v) == \A i \in DOMAIN v : v[i] \in 32..126
PlainRequest(r) == /\ \A i \in DOMAIN r.headers : PlainValue(r.headers[i][2])
                   /\ Utf8Ok(PathDecode(r.path))

\* (names that the request does not have add nothing; the header with the signature can not be signed)
Present(r, signed) == SelectSeq(SetToSortSeq(RangeOf(signed), BLess), LAMBDA n : HasH(r, n) /\ n # NAuthz)

\* "accept", "refuse", or "free" where S3 clients and servers differ

----------------------------------------------------------------------------
(* Authorization header *)

StripL(s) == LET P == {i \in DOMAIN s : s[i] # Space} IN IF P = {} THEN <<>> ELSE SubSeq(s, MinOf(P), Len(s))

ParseAuthz(v) ==
  LET i == Index(v, Space)
      alg == SubSeq(v, 1, i - 1)
      f == SplitB(SubSeq(v, i + 1, Len(v)), Comma)
      g == [k \in DOMAIN f |-> StripL(f[k])] \o <<>>
      p1 == PCred p2 == PHdrs p3 == PSig
  IN IF i # 0 /\ Len(g) = 3 /\ IsPfx(p1, g[1]) /\ IsPfx(p2, g[2]) /\ IsPfx(p3, g[3])
     THEN [ok |-> TRUE, alg |-> alg, cred |-> ParseCred(Drop(g[1], Len(p1))),
           signed |-> SplitB(Drop(g[2], Len(p2)), Semi), sig |-> Drop(g[3], Len(p3)),
           plain |-> f[1] = g[1] /\ f[2] = <<Space>> \o g[2] /\ f[3] = <<Space>> \o g[3]]
     ELSE [ok |-> FALSE]


HeaderAuth(r, keys, plus) ==
  LET av == HValues(r, NAuthz)
      dv == HValues(r, NDate)
      sv == HValues(r, Sha)
  IN IF av = <<>> THEN "refuse"
     ELSE IF Len(av) > 1 \/ Len(dv) > 1 \/ Len(sv) > 1 THEN "free"
     ELSE LET a == ParseAuthz(av[1])
          IN IF ~a.ok \/ dv = <<>> \/ sv = <<>> THEN "refuse"
             ELSE IF a.alg # Algorithm \/ ~a.cred.ok THEN "refuse"
             ELSE IF ~DateForm(dv[1]) \/ a.cred.date # Take(dv[1], 8) THEN "refuse"
             ELSE IF SecretOf(keys, a.cred.ak) = {} THEN "refuse"
             ELSE IF UnsignedAmz(r, a.signed) THEN "refuse"
             ELSE IF sv[1] \notin {Unsigned, Streaming, r.bodyhash} THEN "refuse"
             ELSE LET sk == CHOOSE s \in SecretOf(keys, a.cred.ak) : TRUE
                      present == Present(r, a.signed)
                      canon == Canonical(r, IF r.hasq THEN Pairs(r.query, plus) ELSE <<>>, present, sv[1])
                  IN IF ~SignedAs(r, a.sig, Term(sk, dv[1], a.cred.region, canon)) THEN "refuse"
                     ELSE IF /\ Sorted(a.signed) /\ LowerNames(a.signed) /\ present = a.signed
                             /\ NHost \in RangeOf(a.signed) /\ a.plain /\ DateOk(dv[1])
                          THEN "accept"
                     ELSE "free"

----------------------------------------------------------------------------
(* presigned URL *)

Needed == {QAlg, QCred, QDate, QExp, QHdr, QSig}

\* some read a number with a plus sign
Secs(e) == IF e # <<>> /\ e[1] = Plus THEN Drop(e, 1) ELSE e
\* the verdict for one choice of the parameters, ch: name -> value
QueryWith(r, keys, ps, ch) ==
  LET cred == ParseCred(ch[QCred])
      signed == SplitB(ch[QHdr], Semi)
  IN IF ch[QAlg] # Algorithm \/ ~cred.ok \/ ~DateForm(ch[QDate]) \/ cred.date # Take(ch[QDate], 8) THEN "refuse"
     ELSE IF SecretOf(keys, cred.ak) = {} THEN "refuse"
     ELSE IF UnsignedAmz(r, signed) THEN "refuse"
     ELSE IF ~AllDigits(Secs(ch[QExp])) THEN "refuse"
     ELSE LET sk == CHOOSE s \in SecretOf(keys, cred.ak) : TRUE
              present == Present(r, signed)
              canon == Canonical(r, SelectSeq(ps, LAMBDA p : p[1] # QSig), present, Unsigned)
          IN IF ~SignedAs(r, ch[QSig], Term(sk, ch[QDate], cred.region, canon)) THEN "refuse"
             ELSE IF ~DateOk(ch[QDate]) \/ Len(Secs(ch[QExp])) > 8 THEN "free"
             ELSE LET when == CmpPlus(r.now, Time(ch[QDate]), Dec(Secs(ch[QExp])))
                  IN IF when = "after" THEN "refuse"
                     ELSE IF when = "same" THEN "free"
                     ELSE IF /\ Sorted(signed) /\ LowerNames(signed) /\ present = signed
                             /\ NHost \in RangeOf(signed)
                             /\ ch[QExp] = Secs(ch[QExp]) /\ Dec(ch[QExp]) \in 1..604800
                             \* a date in the future may be refused
                             /\ CmpPlus(r.now, Time(ch[QDate]), 0) # "before"
                             /\ ~HasH(r, NAuthz) /\ ~HasH(r, Sha)
                          THEN "accept"
                     ELSE "free"

QueryAuth(r, keys, plus) ==
  LET ps == Pairs(r.query, plus)
      choices == {[n \in Needed |-> Values(ps, n)[f[n]]] : f \in {f \in [Needed -> 1..2] : \A n \in Needed : f[n] <= Len(Values(ps, n))}}
  IN IF \E n \in Needed : Values(ps, n) = <<>> THEN "refuse"
     ELSE IF \E n \in Needed : Len(Values(ps, n)) > 2 THEN "free"
     ELSE IF Cardinality(choices) = 1 THEN QueryWith(r, keys, ps, CHOOSE ch \in choices : TRUE)
     \* which of several counts is not defined
     ELSE IF \A ch \in choices : QueryWith(r, keys, ps, ch) = "refuse" THEN "refuse" ELSE "free"

----------------------------------------------------------------------------
(* form POST: what is signed is the policy, with a key made from the date (without the time) *)

FDate == NDate
FNeeded == {FPol, FAlg, FCred, FDate, FSig}

\* a path of one segment, which may have a slash at its end
BucketPath(p) == /\ Len(p) > 1 /\ p[1] = Slash /\ p[2] # Slash
                 /\ \A i \in 2..(Len(p) - 1) : p[i] # Slash

FormAuth(r, keys) ==
  LET f == [i \in DOMAIN r.form |-> <<LowerB(r.form[i][1]) \o <<>>, r.form[i][2]>>]
      V(n) == Values(f, n)[1]
  IN IF \E n \in FNeeded : Values(f, n) = <<>> THEN "refuse"
     ELSE IF \E n \in FNeeded : Len(Values(f, n)) > 1 THEN "free"
     ELSE LET cred == ParseCred(V(FCred))
          IN IF V(FAlg) # Algorithm \/ ~cred.ok \/ ~DateForm(V(FDate)) \/ cred.date # Take(V(FDate), 8) THEN "refuse"
             ELSE IF SecretOf(keys, cred.ak) = {} THEN "refuse"
             ELSE IF ~SignedAs(r, V(FSig), Term(CHOOSE s \in SecretOf(keys, cred.ak) : TRUE, cred.date, cred.region, V(FPol)))
                  THEN "refuse"
             ELSE IF ~r.polok THEN "refuse"
             \* a form uploads to a bucket
             ELSE IF ~BucketPath(r.path) THEN "refuse"
             ELSE IF DateOk(V(FDate)) /\ \A i \in DOMAIN r.form : LowerB(r.form[i][1]) \o <<>> = r.form[i][1]
                  THEN "accept" ELSE "free"

----------------------------------------------------------------------------

VerdictPlus(r, keys, plus) ==
  IF r.hasq /\ Values(Pairs(r.query, plus), QSig) # <<>> THEN QueryAuth(r, keys, plus)
  ELSE HeaderAuth(r, keys, plus)

Verdict(r, keys) ==
  IF r.isform THEN FormAuth(r, keys)
  ELSE IF ~PctOk(r.path) \/ (r.hasq /\ ~PctOk(r.query)) THEN "free"
  ELSE LET v == VerdictPlus(r, keys, Space)
       IN IF r.hasq /\ Index(r.query, Plus) # 0
             \* a raw '+' means a space to some and itself to others
          THEN IF v = "refuse" /\ VerdictPlus(r, keys, Plus) = "refuse" THEN "refuse" ELSE "free"
          ELSE IF v # "accept" THEN v
          ELSE IF PlainRequest(r) /\ (~r.hasq \/ Utf8Ok(DecodeWith(r.query, Space))) THEN "accept"
          ELSE "free"
=============================================================================
