-------------------------------- MODULE Api ---------------------------------
(* The HTTP interface: which operation a request asks for, what a storage    *)
(* backend is given for it, and the response that its answer becomes.        *)
(*                                                                          *)
(* A request c has                                                          *)
(*   method            text                                                 *)
(*   path, query       bytes as sent (query without '?')                    *)
(*   headers           <<lower case name (text), value (bytes)>>            *)
(*   form              the body is a form: formfields <<name, bytes>>, with  *)
(*                     the file content in body                             *)
(*   body              bytes; bodyerr: the body ends with an error           *)
(*   xmlkind           "none", "delete", "complete", "config" or "bad": what *)
(*                     the XML document in the body is; xml: its fields      *)
(* What the backend was called with: calls, each with op, fields <<name,     *)
(* type, value>> (types: s b i, m metadata, x from the XML document), body.  *)
EXTENDS Names, ApiTables
LOCAL INSTANCE Auth

Ops == DOMAIN InHeaders

----------------------------------------------------------------------------
(* which operation *)

QName(nb) == LET m == {q \in QueryNames : q[2] = nb} IN IF m = {} THEN "?" ELSE (CHOOSE q \in m : TRUE)[1]
\* the decoded query: <<name (text), value>>
Query(c) == LET p == Pairs(c.query, Space) IN [i \in DOMAIN p |-> <<QName(p[i][1]), p[i][2]>>] \o <<>>
QNames(qs) == {qs[i][1] : i \in DOMAIN qs}
QVals(qs, n) == {qs[i][2] : i \in {i \in DOMAIN qs : qs[i][1] = n}}
HVals(c, n) == {c.headers[i][2] : i \in {i \in DOMAIN c.headers : c.headers[i][1] = n}}
HasHdr(c, n) == HVals(c, n) # {}

Two == {<<50>>}

\* the set of what may happen: operations, or "refuse"
Select(c, kind, qs) ==
  LET m == c.method
      q == QNames(qs)
      subs == q \cap (CASE kind = "bucket" -> BucketSubs [] kind = "object" -> ObjectSubs [] OTHER -> {})
      \* sub-resources of another kind of resource mean nothing here: to refuse them is fine
      odd == (q \cap (BucketSubs \cup ObjectSubs)) \ subs # {}
      Plain(op) == IF subs # {} THEN {"refuse"} ELSE IF odd THEN {op, "refuse"} ELSE {op}
  IN CASE kind = "root" -> IF m = "GET" THEN (IF odd THEN {"ListBuckets", "refuse"} ELSE {"ListBuckets"}) ELSE {"refuse"}
       [] kind = "bucket" ->
            (CASE m = "PUT" -> Plain("CreateBucket")
               [] m = "DELETE" -> Plain("DeleteBucket")
               [] m = "HEAD" -> Plain("HeadBucket")
               [] m = "GET" ->
                    LET lt == QVals(qs, "list-type")
                    IN IF subs = {"location"} THEN (IF lt = {} /\ ~odd THEN {"GetBucketLocation"} ELSE {"GetBucketLocation", "refuse"})
                       ELSE IF subs # {} THEN {"refuse"}
                       ELSE IF lt = {} THEN Plain("ListObjects")
                       ELSE IF lt = Two THEN Plain("ListObjectsV2")
                       ELSE {"ListObjects", "ListObjectsV2", "refuse"}
               [] m = "POST" ->
                    IF c.form THEN (IF subs = {} /\ ~odd THEN {"PutObject"} ELSE {"PutObject", "DeleteObjects", "refuse"})
                    ELSE IF subs = {"delete"} THEN (IF odd THEN {"DeleteObjects", "refuse"} ELSE {"DeleteObjects"})
                    ELSE {"refuse"}
               [] OTHER -> {"refuse"})
       [] kind = "object" ->
            (CASE m = "GET" -> Plain("GetObject")
               [] m = "HEAD" -> Plain("HeadObject")
               [] m = "DELETE" -> Plain("DeleteObject")
               [] m = "PUT" ->
                    LET copy == HasHdr(c, "x-amz-copy-source")
                        part == "partNumber" \in q
                        up == "uploadId" \in q
                    IN IF subs \ {"uploadId"} # {} THEN {"refuse"}
                       ELSE IF up /\ part THEN (IF copy THEN {"refuse"} ELSE IF odd THEN {"UploadPart", "refuse"} ELSE {"UploadPart"})
                       ELSE IF up \/ part THEN {"refuse"}
                       ELSE Plain(IF copy THEN "CopyObject" ELSE "PutObject")
               [] m = "POST" ->
                    IF c.form THEN {"refuse"}
                    ELSE IF subs = {"uploads"} THEN (IF odd THEN {"CreateMultipartUpload", "refuse"} ELSE {"CreateMultipartUpload"})
                    ELSE IF subs = {"uploadId"} THEN (IF odd THEN {"CompleteMultipartUpload", "refuse"} ELSE {"CompleteMultipartUpload"})
                    ELSE IF subs = {"uploads", "uploadId"} THEN {"CreateMultipartUpload", "CompleteMultipartUpload", "refuse"}
                    ELSE {"refuse"}
               [] OTHER -> {"refuse"})

----------------------------------------------------------------------------
(* what the backend is given *)

True == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>

\* numbers: the digits without sign and zeros, and how sure the form is
Unsign(v) == IF v # <<>> /\ v[1] \in {43, 45} THEN Drop(v, 1) ELSE v
IntForm(v) == AllDigits(Unsign(v))
IntCanon(v) == LET d == NoZeros(Unsign(v)) IN IF v[1] = 45 /\ d # <<48>> THEN <<45>> \o d ELSE d
ParseAs(kind, v) ==
  CASE kind = "i" -> IF ~IntForm(v) \/ Len(NoZeros(Unsign(v))) > 19 THEN "bad"
                     ELSE IF v = IntCanon(v) /\ Len(v) <= 18 THEN "ok" ELSE "free"
    [] kind = "b" -> IF v \in {True, False} THEN "ok" ELSE IF LowerB(v) \in {True, False} THEN "free" ELSE "bad"
    [] OTHER -> "ok"
Same(kind, v, g) ==
  CASE kind = "i" -> IntForm(v) /\ g = IntCanon(v)
    [] kind = "b" -> g = LowerB(v)
    [] OTHER -> g = v

\* sources of an operation's fields: <<field, type, set of the values sent>>
Sources(op, c, qs) ==
  IF op = "PutObject" /\ c.form
  THEN {<<f[1], "s", {c.formfields[i][2] : i \in {i \in DOMAIN c.formfields : c.formfields[i][1] = f[2]}}>> : f \in FormFields}
  ELSE {<<f[1], f[2], HVals(c, f[3])>> : f \in InHeaders[op]} \cup {<<f[1], f[2], QVals(qs, f[3])>> : f \in InQuery[op]}

MetaOf(s) == {<<SubSeq(s[i][1], 12, Len(s[i][1])), s[i][2]>> : i \in {i \in DOMAIN s : Len(s[i][1]) > 11 /\ SubSeq(s[i][1], 1, 11) = "x-amz-meta-"}}
\* the values of a repeated header, separated by commas
MetaHeaders(s) ==
  LET m == {i \in DOMAIN s : Len(s[i][1]) > 11 /\ SubSeq(s[i][1], 1, 11) = "x-amz-meta-"}
      n == {s[i][1] : i \in m}
      all(x) == LET ps == SetToSortSeq({i \in m : s[i][1] = x}, LAMBDA p, q : p < q) IN JoinB([k \in DOMAIN ps |-> s[ps[k]][2]], <<44>>)
  IN {<<SubSeq(x, 12, Len(x)), all(x)>> : x \in n}
WithMeta == {"PutObject", "CopyObject", "CreateMultipartUpload"}
WithBody == {"PutObject", "UploadPart"}
XmlOf == [DeleteObjects |-> {"delete", "other"}, CompleteMultipartUpload |-> {"complete", "none", "other"}, CreateBucket |-> {"none", "config", "other"}]
\* documents that nothing is specified about: of another kind, without any object to delete, or none at all
OddXml(op, c) == op \in DOMAIN XmlOf /\ (c.xmlkind = "other" \/ (c.xmlkind = "none" /\ op # "CreateBucket") \/ (c.xmlkind = "delete" /\ \A i \in DOMAIN c.xml : c.xml[i][1] = "delete.quiet"))

\* the request can not be carried out as this operation
MustRefuse(op, c, qs) ==
  \/ \E s \in Sources(op, c, qs) : s[3] # {} /\ \A v \in s[3] : ParseAs(s[2], v) = "bad"
  \/ op \in DOMAIN XmlOf /\ c.xmlkind \notin XmlOf[op]
  \/ op \in DOMAIN XmlOf /\ c.bodyerr
\* values that are no text, and content types that are none
OddHeaders(c) == \E i \in DOMAIN c.headers : LET v == c.headers[i][2] IN
  \/ \E j \in DOMAIN v : v[j] < 32 \/ v[j] > 126
  \/ c.headers[i][1] = "content-type" /\ (v = <<>> \/ v[1] = Space \/ ~\E j \in DOMAIN v : v[j] = Slash)
MayRefuse(op, c, qs) ==
  \/ MustRefuse(op, c, qs)
  \/ OddHeaders(c) \/ OddXml(op, c)
  \/ op = "CopyObject" /\ \E v \in HVals(c, "x-amz-copy-source") : CopySource(v).kind # "object"
  \/ \E s \in Sources(op, c, qs) : \E v \in s[3] : ParseAs(s[2], v) # "ok"
  \/ c.bodyerr

Got(call, f) == {call.fields[i][3] : i \in {i \in DOMAIN call.fields : call.fields[i][1] = f /\ call.fields[i][2] \notin {"m", "x"}}}
GotKind(call, k) == {<<call.fields[i][1], call.fields[i][3]>> : i \in {i \in DOMAIN call.fields : call.fields[i][2] = k}}

\* fields of the call that are not what was sent
WrongFields(op, c, res, qs, call) ==
  LET src == Sources(op, c, qs)
      key == IF c.form THEN {c.formfields[i][2] : i \in {i \in DOMAIN c.formfields : c.formfields[i][1] = "key"}} ELSE {res.key}
      Bad(s) == LET g == Got(call, s[1])
                IN IF s[3] = {} THEN ~(g = {} \/ (s[1] = "content_length" /\ c.form /\ g = {c.filelen}))
                   ELSE IF g = {} THEN ~(s[2] = "s" /\ <<>> \in s[3])
                   ELSE ~\E v \in s[3] : \/ \E x \in g : Cardinality(g) = 1 /\ Same(s[2], v, x)
                                         \/ s[1] = "copy_source" /\ PctOk(v) /\ g = {PathDecode(v)}
      known == {s[1] : s \in src} \cup {"bucket", "key"}
               \cup (IF c.form THEN {"content_length"} ELSE {})
      extra == {call.fields[i][1] : i \in {i \in DOMAIN call.fields : call.fields[i][2] \notin {"m", "x"} /\ call.fields[i][1] \notin known}}
      meta == IF op \in WithMeta THEN (IF c.form THEN MetaOf(c.formfields) ELSE MetaHeaders(c.headers)) ELSE {}
      xml == IF op \in DOMAIN XmlOf THEN {<<c.xml[i][1], c.xml[i][2]>> : i \in DOMAIN c.xml} ELSE {}
  IN {s[1] : s \in {s \in src : Bad(s)}} \cup extra
     \cup (IF Got(call, "bucket") = (IF res.kind = "root" THEN {} ELSE {res.bucket}) THEN {} ELSE {"bucket"})
     \cup (IF Got(call, "key") = (IF res.kind = "object" THEN {res.key} ELSE IF c.form THEN key ELSE {}) THEN {} ELSE {"key"})
     \cup (IF GotKind(call, "m") = meta THEN {} ELSE {"metadata"})
     \cup (IF c.xmlkind = "other" \/ GotKind(call, "x") = xml THEN {} ELSE {"document"})

WrongBody(op, c, call) ==
  IF op \in WithBody
  THEN IF c.bodyerr THEN ~call.body.err ELSE call.body.err \/ (call.body.bytes # c.body /\ ~(c.body = <<>> /\ call.body.none))
  ELSE FALSE

----------------------------------------------------------------------------
(* the response *)

\* 2021-03-04T05:06:07... as Thu, 04 Mar 2021 05:06:07 GMT; the time may come with an offset from UTC, as +09:30
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Days == <<"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed">>
NumS(s, i, j) == Dec(B(SubSeq(s, i, j)))
TwoDig(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
PrevDay(y, m, d) == IF d > 1 THEN <<y, m, d - 1>> ELSE IF m > 1 THEN <<y, m - 1, DaysIn(y, m - 1)>> ELSE <<y - 1, 12, 31>>
NextDay(y, m, d) == IF d < DaysIn(y, m) THEN <<y, m, d + 1>> ELSE IF m < 12 THEN <<y, m + 1, 1>> ELSE <<y + 1, 1, 1>>
OffsetMinutes(s) ==
  LET n == Len(s) IN
  IF SubSeq(s, n, n) = "Z" THEN 0
  ELSE (60 * NumS(s, n - 4, n - 3) + NumS(s, n - 1, n)) * (IF SubSeq(s, n - 5, n - 5) = "-" THEN -1 ELSE 1)
HttpDate(s) ==
  LET y == NumS(s, 1, 4) m == NumS(s, 6, 7) d == NumS(s, 9, 10)
      t == 60 * NumS(s, 12, 13) + NumS(s, 15, 16) - OffsetMinutes(s)
      day == IF t < 0 THEN PrevDay(y, m, d) ELSE IF t >= 1440 THEN NextDay(y, m, d) ELSE <<y, m, d>>
      k == t % 1440
  IN Days[1 + (DayNo(day[1], day[2], day[3]) % 7)] \o ", " \o TwoDig(day[3]) \o " " \o Months[day[2]] \o " " \o ToString(day[1]) \o " "
     \o TwoDig(k \div 60) \o ":" \o TwoDig(k % 60) \o ":" \o SubSeq(s, 18, 19) \o " GMT"

\* out: kind ("ok", "error"), fields <<name, text>>, meta <<name, text>>, lists <<name, sequence of sequences of <<field, text>>>>, body
Val(out, f) == {out.fields[i][2] : i \in {i \in DOMAIN out.fields : out.fields[i][1] = f}}
ExpectedHeaders(op, out) ==
  UNION {{<<r[3], IF r[1] = "last_modified" THEN HttpDate(v) ELSE v>> : v \in Val(out, r[1])} : r \in OutHeaders[op]}
TableHeaders(op) == {r[3] : r \in OutHeaders[op]}
SpecialHeader == {"content-length", "content-type"}
\* headers of the response that the backend did not give or that are different
WrongHeaders(op, c, out, resp) ==
  LET got == {<<resp.headers[i][1], resp.headers[i][2]>> : i \in {i \in DOMAIN resp.headers : resp.headers[i][1] \in TableHeaders(op)}}
      exp == ExpectedHeaders(op, out)
      meta == IF op \in {"GetObject", "HeadObject"} THEN {<<out.meta[i][1], out.meta[i][2]>> : i \in DOMAIN out.meta} ELSE {}
      gm == MetaOf(resp.headers)
  IN {h[1] : h \in exp \ got} \cup {h[1] : h \in {h \in got \ exp : h[1] \notin SpecialHeader \/ \E e \in exp : e[1] = h[1]}}
     \cup (IF gm = meta THEN {} ELSE {"x-amz-meta-*"})

StatusFor(op, out) == IF op \in {"DeleteBucket", "DeleteObject"} THEN 204
                      ELSE IF op = "GetObject" /\ Val(out, "content_range") # {} THEN 206 ELSE 200

Join(a, b) == IF b = "" THEN a ELSE a \o "." \o b
ExpectedXml(op, out) ==
  LET doc == Document[op]
      list(l) == UNION {LET es == out.lists[k][2] IN
                   UNION {{<<doc \o "." \o l[2] \o "." \o ToString(n) \o "." \o p[2], e[2]>> :
                             e \in {es[n][j] : j \in {j \in DOMAIN es[n] : es[n][j][1] = p[1]}}} : n \in DOMAIN es, p \in l[3]}
                   : k \in {k \in DOMAIN out.lists : out.lists[k][1] = l[1]}}
  IN UNION {{<<Join(doc, p[2]), v>> : v \in Val(out, p[1])} : p \in OutXml[op]} \cup UNION {list(l) : l \in OutLists[op]}
\* the leaves of the document: those that were asked for, and empty ones
WrongXml(op, out, resp) ==
  IF Document[op] = "" THEN {}
  ELSE LET got == {<<resp.xml[i][1], resp.xml[i][2]>> : i \in DOMAIN resp.xml}
           exp == ExpectedXml(op, out)
       IN IF exp = {} /\ resp.xmlkind = "none" THEN {}
          ELSE {x[1] : x \in exp \ got} \cup {x[1] : x \in {x \in got \ exp : x[2] # ""}} \cup (IF resp.xmlkind = "xml" THEN {} ELSE {"document"})

CodeStatus(code, st) == IF \E p \in StatusOf : p[1] = code THEN <<code, st>> \in StatusOf ELSE st \in 400..599
\* every response: a success, or a refusal with an error document
WellFormed(c, resp) ==
  /\ resp.kind = "response"
  /\ IF resp.status \in 200..299 THEN resp.xmlkind # "broken"
     ELSE /\ resp.status \in (400..599) \cup {301, 307}
          /\ IF c.method = "HEAD" /\ resp.xmlkind = "none" THEN TRUE
             ELSE resp.xmlkind = "xml" /\ resp.code # "" /\ CodeStatus(resp.code, resp.status)
Refusal(resp) == resp.kind = "response" /\ resp.status \notin 200..299

----------------------------------------------------------------------------
(* everything that is wrong with how a request was handled *)

Wrong(c) ==
  LET res == Resource(c.path)
      qs == Query(c)
      resp == c.resp
      n == Len(c.calls)
      keylong == c.form /\ \E i \in DOMAIN c.formfields : c.formfields[i][1] = "key" /\ Len(c.formfields[i][2]) > MaxKey
      sel == IF res.kind \in {"root", "bucket", "object"} THEN Select(c, res.kind, qs) ELSE {"refuse"}
      op == c.calls[1].op
      form == IF WellFormed(c, resp) THEN {} ELSE {"response"}
  IN IF res.kind = "free" \/ c.freepath THEN form
     ELSE IF res.kind \notin {"root", "bucket", "object"}
     THEN form \cup (IF n = 0 /\ Refusal(resp) THEN {} ELSE {"address accepted"})
          \cup (IF res.kind = "name" /\ resp.kind = "response" /\ resp.code # "InvalidBucketName" /\ ~(c.method = "HEAD" /\ resp.xmlkind = "none") THEN {"name code"} ELSE {})
          \cup (IF res.kind = "long" /\ resp.kind = "response" /\ resp.code # "KeyTooLongError" /\ ~(c.method = "HEAD" /\ resp.xmlkind = "none") THEN {"key code"} ELSE {})
     ELSE IF keylong
     THEN form \cup (IF n = 0 /\ Refusal(resp) THEN {} ELSE {"address accepted"})
          \cup (IF resp.kind = "response" /\ resp.code # "KeyTooLongError" THEN {"key code"} ELSE {})
     ELSE IF n = 0
     THEN form \cup (IF Refusal(resp) THEN {} ELSE {"success without operation"})
          \cup (IF "refuse" \in sel \/ \E o \in sel : MayRefuse(o, c, qs) THEN {} ELSE {"refused"})
     ELSE IF n > 1 THEN form \cup {"called twice"}
     ELSE IF op \notin sel THEN form \cup {"operation"}
     ELSE IF MustRefuse(op, c, qs) THEN form \cup {"carried out"}
     ELSE form \cup {"field " \o f : f \in WrongFields(op, c, res, qs, c.calls[1])}
          \cup (IF WrongBody(op, c, c.calls[1]) THEN {"body"} ELSE {})
          \cup (IF c.out.kind = "ok"
                THEN (IF c.bodyerr THEN {}
                      ELSE (IF resp.kind = "response" /\ resp.status = StatusFor(op, c.out) THEN {} ELSE {"status"})
                           \cup (IF resp.kind # "response" THEN {} ELSE
                                   {"header " \o h : h \in WrongHeaders(op, c, c.out, resp)} \cup {"element " \o x : x \in WrongXml(op, c.out, resp)}
                                   \cup (IF op = "GetObject" /\ (resp.body # c.out.body \/ resp.bodyerr # c.out.bodyerr) THEN {"content"} ELSE {})))
                ELSE IF /\ Refusal(resp) \/ CodeStatus(c.out.code, resp.status)
                        /\ c.method = "HEAD" \/ (resp.code = c.out.code /\ resp.message = c.out.message)
                        /\ CodeStatus(c.out.code, resp.status)
                     THEN {} ELSE {"error"})

----------------------------------------------------------------------------
(* the same for the storage in the file system: c.fs; c.changed is whether   *)
(* there are other buckets, objects or files than before, c.source whether    *)
(* there is something to copy, c.buckets which buckets there are              *)

Comps(k) == SplitB(k, Slash)
Exists(c, b) == \E i \in DOMAIN c.buckets : c.buckets[i] = b
PlainKey(k) == \A i \in DOMAIN Comps(k) : Len(Comps(k)[i]) \in 1..200 /\ Comps(k)[i] \notin {<<46>>, <<46, 46>>} /\ \A j \in DOMAIN Comps(k)[i] : Comps(k)[i][j] # 0
WrongFs(c) ==
  LET res == Resource(c.path)
      resp == c.resp
      keys == {c.formfields[i][2] : i \in {i \in DOMAIN c.formfields : c.formfields[i][1] = "key"}}
      src == {CopySource(v).kind : v \in HVals(c, "x-amz-copy-source")}
      form == IF WellFormed(c, resp) THEN {} ELSE {"response"}
      headless == c.method = "HEAD" /\ resp.xmlkind = "none"
      Code(x) == resp.kind = "response" /\ (resp.code = x \/ headless)
      good == /\ res.kind \in {"bucket", "object"} /\ c.method = "PUT" /\ c.query = <<>> /\ (IF res.kind = "object" THEN PlainKey(res.key) /\ Exists(c, res.bucket) ELSE ~Exists(c, res.bucket) /\ c.xmlkind = "none")
              /\ ~c.bodyerr /\ ~OddHeaders(c)
              /\ \A v \in HVals(c, "x-amz-copy-source") : c.source /\ CopySource(v).kind = "object" /\ PlainKey(CopySource(v).key)
      goodform == c.form /\ res.kind = "bucket" /\ Exists(c, res.bucket) /\ Cardinality(keys) = 1 /\ \A k \in keys : PlainKey(k) /\ Len(k) <= MaxKey
  IN form
     \cup (IF res.kind \in {"name", "long", "refused"}
           THEN (IF Refusal(resp) /\ ~c.changed THEN {} ELSE {"address accepted"})
                \cup (IF res.kind # "name" \/ Code("InvalidBucketName") THEN {} ELSE {"name code"})
                \cup (IF res.kind # "long" \/ Code("KeyTooLongError") THEN {} ELSE {"key code"})
           ELSE IF res.kind = "object" /\ c.method = "PUT" /\ c.query = <<>> /\ src # {} /\ src \subseteq {"bad"}
           THEN (IF Refusal(resp) /\ ~c.changed THEN {} ELSE {"address accepted"})
           ELSE IF c.form /\ keys # {} /\ \A k \in keys : Len(k) > MaxKey
           THEN (IF Refusal(resp) /\ ~c.changed THEN {} ELSE {"address accepted"}) \cup (IF Code("KeyTooLongError") THEN {} ELSE {"key code"})
           ELSE IF good \/ goodform THEN (IF resp.kind = "response" /\ resp.status = 200 THEN {} ELSE {"address refused"})
           ELSE {})
=============================================================================
