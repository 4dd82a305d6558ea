------------------------------ MODULE S3Store ------------------------------
(* The abstract store of an S3 server: what every operation must do.        *)
(*                                                                          *)
(* A state is a record                                                      *)
(*   bk    set of existing buckets                                          *)
(*   ob    function from <<bucket, key>> to [c, m, t]: content, metadata and  *)
(*         modification time ("" until somebody was told it)                  *)
(*   up    function from upload id to [b, k, m, parts, stale], unfinished    *)
(*   used  upload ids handed out so far                                      *)
(* Keys are numbers into KeyBytes; a content is a sequence of segments (the  *)
(* concatenation of parts is the concatenation of sequences), SegLen gives   *)
(* the number of bytes of a segment; metadata is one opaque value.           *)
(*                                                                          *)
(* An operation is a record a with a.op and arguments, its response a record *)
(* r with r.st = "ok" or "err", or "lost" if the client saw no response.     *)
(* For each operation the specification says which errors it must be refused *)
(* with (Must), which errors may be given by an implementation with limits   *)
(* (May), its effect (Effect) and which results the client sees (Mismatch).  *)
EXTENDS Range

CONSTANTS KeyBytes,   \* sequence of byte strings
          SegLen      \* function from segments to lengths

AnyCode == "*"
Nothing == [b \in {} |-> 0]

Empty == [bk |-> {}, ob |-> Nothing, up |-> Nothing, used |-> {}]

RECURSIVE Size(_)
Size(c) == IF c = <<>> THEN 0 ELSE SegLen[Head(c)] + Size(Tail(c))

----------------------------------------------------------------------------
(* keys *)

Slash == 47
KeySegs(kb) == SplitB(kb, Slash)

\* the file system resolves such segments, a store may refuse them
Alias(kb) ==
  LET segs == KeySegs(kb)
      n == IF IsSfx(<<Slash>>, kb) THEN Len(segs) - 1 ELSE Len(segs)
  IN \/ \E i \in DOMAIN kb : kb[i] = 0
     \/ \E i \in 1..n : segs[i] \in {<<>>, <<46>>, <<46, 46>>}
TooLong(kb) == Len(kb) > 1024
\* the metadata of such keys does not fit in a file name
LongForMeta(kb) == Len(kb) > 100
LongName(kb) == LET segs == KeySegs(kb) IN Len(kb) > 255 /\ \E i \in DOMAIN segs : Len(segs[i]) > 255
\* a directory marker: outside of the properties, must not affect objects
IsMarkerB(kb) == IsSfx(<<Slash>>, kb)

KeyInfo == [k \in DOMAIN KeyBytes |->
              [alias |-> Alias(KeyBytes[k]), toolong |-> TooLong(KeyBytes[k]),
               longname |-> LongName(KeyBytes[k]), longmeta |-> LongForMeta(KeyBytes[k]), marker |-> IsMarkerB(KeyBytes[k])]]
IsMarker(k) == KeyInfo[k].marker

\* one key is a directory of the other
Conflict(k1, k2) == LET a == KeyBytes[k1] b == KeyBytes[k2]
                    IN IsPfx(a \o <<Slash>>, b) \/ IsPfx(b \o <<Slash>>, a)

KeyMust(k) == IF KeyInfo[k].toolong THEN {"KeyTooLongError"} ELSE {}
MetaMay(k, m) == IF m # "" /\ KeyInfo[k].longmeta THEN {AnyCode} ELSE {}
KeyMay(k) == IF KeyInfo[k].alias \/ KeyInfo[k].longname THEN {AnyCode} ELSE {}
ConflictMay(S, b, k) ==
  IF \E o \in DOMAIN S.ob : o[1] = b /\ Conflict(o[2], k) THEN {AnyCode} ELSE {}

----------------------------------------------------------------------------
(* state updates *)

Has(S, b, k) == <<b, k>> \in DOMAIN S.ob
Put(S, b, k, c, m) == [S EXCEPT !.ob = (<<b, k>> :> [c |-> c, m |-> m, t |-> ""]) @@ S.ob]
Del(S, b, ks) == [S EXCEPT !.ob = [o \in {o \in DOMAIN S.ob : ~(o[1] = b /\ o[2] \in ks)} |-> S.ob[o]]]
BucketObjs(S, b) == {o \in DOMAIN S.ob : o[1] = b}

\* an upload that the request may name with this bucket and key
Live(S, a) == a.u \in DOMAIN S.up /\ S.up[a.u].b = a.b /\ S.up[a.u].k = a.k
Stale(S, a) == a.u \in DOMAIN S.up /\ S.up[a.u].stale

RECURSIVE CatParts(_, _)
CatParts(parts, ns) == IF ns = <<>> THEN <<>> ELSE parts[Head(ns)] \o CatParts(parts, Tail(ns))
ListedNs(a) == [i \in DOMAIN a.parts |-> a.parts[i].n]

Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]

----------------------------------------------------------------------------
(* refusals: sets of error codes, AnyCode stands for whatever code *)

NoBucket(S, b) == IF b \in S.bk THEN {} ELSE {"NoSuchBucket"}
Broken(a) == IF a.broken THEN {AnyCode} ELSE {}
Digest(a) == IF a.md5 \in {"bad", "invalid"} THEN {"BadDigest", "InvalidDigest"} ELSE {}

PartEtagOk(p, c) == p.e = "none" \/ (p.e = "some" /\ p.c = c)

CompleteMust(S, a, up) ==
  IF a.parts = <<>> THEN {AnyCode}
  ELSE IF ~Ascending(ListedNs(a)) THEN {AnyCode}
  ELSE IF \E i \in DOMAIN a.parts : a.parts[i].n \notin DOMAIN up.parts THEN {AnyCode}
  ELSE IF \E i \in DOMAIN a.parts : ~PartEtagOk(a.parts[i], up.parts[a.parts[i].n]) THEN {AnyCode}
  ELSE {}

CopySrcMust(S, a) == NoBucket(S, a.sb)
  \cup (IF a.sb \in S.bk /\ ~Has(S, a.sb, a.sk) THEN {"NoSuchKey"} ELSE {})
  \cup (IF a.sb \notin S.bk THEN {"NoSuchKey"} ELSE {})

\* the copied version: as read from the state, unless it has been read before
CopySrc(S, a, mem) == IF mem.k = "src" THEN mem.v ELSE S.ob[<<a.sb, a.sk>>]
UpOf(S, a, mem) == IF mem.k = "up" THEN mem.v ELSE S.up[a.u]
NoMem == [k |-> "none"]

Must(S, a, mem) ==
  CASE a.op = "createbucket" -> IF a.b \in S.bk THEN {"BucketAlreadyExists", "BucketAlreadyOwnedByYou"} ELSE {}
    [] a.op = "deletebucket" -> NoBucket(S, a.b)
         \cup (IF BucketObjs(S, a.b) # {} THEN {"BucketNotEmpty"} ELSE {})
    [] a.op \in {"headbucket", "location", "list"} -> NoBucket(S, a.b)
    [] a.op = "listbuckets" -> {}
    [] a.op \in {"put", "form"} -> NoBucket(S, a.b) \cup KeyMust(a.k) \cup Broken(a) \cup Digest(a)
    [] a.op \in {"get", "head"} ->
         IF Has(S, a.b, a.k) THEN {}
         ELSE {"NoSuchKey"} \cup NoBucket(S, a.b) \cup KeyMust(a.k)
              \cup (IF a.op = "get" /\ a.hasrange /\ (ParseRange(a.range).huge \/ ParseRange(a.range).k \in {"bad", "multi"}) THEN {AnyCode} ELSE {})
    [] a.op = "delete" -> NoBucket(S, a.b) \cup KeyMust(a.k)
    [] a.op = "deletes" -> NoBucket(S, a.b)
    [] a.op = "copy" ->
         (IF mem.k = "src" THEN {} ELSE CopySrcMust(S, a)) \cup NoBucket(S, a.b) \cup KeyMust(a.k)
         \cup (IF KeyInfo[a.sk].toolong THEN {AnyCode} ELSE {})
    [] a.op = "create" -> NoBucket(S, a.b) \cup KeyMust(a.k)
    [] a.op = "part" ->
         (IF Live(S, a) THEN {} ELSE {"NoSuchUpload"})
         \cup (IF a.n \in 1..10000 THEN {} ELSE {"InvalidArgument", "InvalidPart", "InvalidRequest"})
         \cup Broken(a) \cup Digest(a) \cup KeyMust(a.k)
         \cup (IF Live(S, a) THEN {} ELSE NoBucket(S, a.b))
    [] a.op = "complete" ->
         IF ~Live(S, a)
         THEN {"NoSuchUpload"} \cup NoBucket(S, a.b) \cup KeyMust(a.k)
              \* the list of parts may be found invalid first
              \cup (IF a.parts = <<>> \/ ~Ascending(ListedNs(a)) THEN {AnyCode} ELSE {})
         ELSE CompleteMust(S, a, UpOf(S, a, mem)) \cup NoBucket(S, a.b)
    [] a.op = "refuse" -> {AnyCode}
    [] OTHER -> {}

May(S, a, mem) ==
  CASE a.op \in {"put", "form"} -> KeyMay(a.k) \cup ConflictMay(S, a.b, a.k) \cup MetaMay(a.k, a.m)
    [] a.op \in {"get", "head"} -> IF Has(S, a.b, a.k) THEN {} ELSE KeyMay(a.k)
    [] a.op = "delete" -> IF Has(S, a.b, a.k) THEN {} ELSE KeyMay(a.k)
    [] a.op = "copy" -> KeyMay(a.k) \cup KeyMay(a.sk) \cup ConflictMay(S, a.b, a.k)
         \cup (IF KeyInfo[a.k].longmeta THEN {AnyCode} ELSE {})
    [] a.op = "create" -> KeyMay(a.k) \cup ConflictMay(S, a.b, a.k) \cup MetaMay(a.k, a.m)
    [] a.op = "part" -> IF Live(S, a) /\ Stale(S, a) THEN {"NoSuchUpload", "NoSuchBucket"} ELSE {}
    [] a.op = "complete" -> ConflictMay(S, a.b, a.k) \cup KeyMay(a.k)
         \cup (IF KeyInfo[a.k].longmeta THEN {AnyCode} ELSE {})
         \cup (IF Live(S, a) /\ Stale(S, a) THEN {"NoSuchUpload", "NoSuchBucket"} ELSE {})
         \* a part may be listed without its ETag, or refused for that
         \cup (IF \E i \in DOMAIN a.parts : a.parts[i].e = "none" THEN {AnyCode} ELSE {})
    [] OTHER -> {}

\* while the operating system fails, every operation may
Fault(a) == "fault" \in DOMAIN a /\ a.fault
MayF(S, a, mem) == IF Fault(a) THEN {AnyCode} ELSE May(S, a, mem)

\* answers that claim that something is not there
Denials == {"NoSuchKey", "NoSuchBucket", "NoSuchUpload", "InvalidPart"}
Denies(r) == r.code \in Denials \/ (r.code = "" /\ r.http = 404)

HttpOf(code) ==
  CASE code \in {"NoSuchKey", "NoSuchBucket", "NoSuchUpload"} -> 404
    [] code \in {"BucketAlreadyExists", "BucketAlreadyOwnedByYou", "BucketNotEmpty"} -> 409
    [] OTHER -> 400

\* no response at all (the connection ends, the process dies), or one that is no response
NoResponse == {"!panic", "!none", "!xml"}

\* the error of a response without a document is known by its status only
ErrIn(r, codes) == \/ AnyCode \in codes /\ r.code \notin NoResponse
                   \/ r.code \in codes
                   \/ r.code = "" /\ \E c \in codes : HttpOf(c) = r.http

----------------------------------------------------------------------------
(* effects of a successful operation *)

Effect(S, a, r, mem) ==
  CASE a.op = "createbucket" -> [S EXCEPT !.bk = @ \cup {a.b}]
    [] a.op = "deletebucket" ->
         [S EXCEPT !.bk = @ \ {a.b},
                   !.up = [u \in DOMAIN @ |-> IF @[u].b = a.b THEN [@[u] EXCEPT !.stale = TRUE] ELSE @[u]]]
    [] a.op \in {"put", "form"} -> IF IsMarker(a.k) THEN S ELSE Put(S, a.b, a.k, a.c, a.m)
    [] a.op = "delete" -> Del(S, a.b, {a.k})
    [] a.op = "deletes" ->
         IF r.st = "lost" THEN Del(S, a.b, RangeOf(a.ks))
         ELSE Del(S, a.b, RangeOf(a.ks) \ RangeOf(r.errors))
    [] a.op = "copy" ->
         LET src == CopySrc(S, a, mem)
         IN IF IsMarker(a.k) THEN S ELSE Put(S, a.b, a.k, src.c, IF a.replace THEN a.m ELSE src.m)
    [] a.op = "create" ->
         IF r.st = "lost" \/ IsMarker(a.k) THEN S
         ELSE [S EXCEPT !.up = (r.u :> [b |-> a.b, k |-> a.k, m |-> a.m,
                                        parts |-> Nothing, stale |-> FALSE]) @@ @,
                        !.used = @ \cup {r.u}]
    [] a.op = "part" -> [S EXCEPT !.up[a.u].parts = (a.n :> a.c) @@ @]
    [] a.op = "complete" ->
         LET up == UpOf(S, a, mem)
             S1 == Put(S, a.b, a.k, CatParts(up.parts, ListedNs(a)), up.m)
         IN [S1 EXCEPT !.up = [u \in DOMAIN @ \ {a.u} |-> @[u]]]
    \* reading teaches the modification time
    [] a.op \in {"get", "head"} ->
         IF r.st = "ok" /\ Has(S, a.b, a.k) THEN [S EXCEPT !.ob[<<a.b, a.k>>].t = r.mtime] ELSE S
    [] a.op = "list" ->
         IF r.st = "lost" THEN S
         ELSE [S EXCEPT !.ob = [o \in DOMAIN @ |->
                IF o[1] = a.b /\ \E i \in DOMAIN r.keys : r.keys[i] = o[2]
                THEN [@[o] EXCEPT !.t = r.mtimes[CHOOSE i \in DOMAIN r.keys : r.keys[i] = o[2]]]
                ELSE @[o]]]
    [] OTHER -> S

----------------------------------------------------------------------------
(* results of a successful operation: the set of wrong aspects *)

Wrong(cond, name) == IF cond THEN {} ELSE {name}

\* all answers about a version agree on its modification time
TimeWrong(v, t) == Wrong(v.t = "" \/ t = v.t, "mtime")

\* a read of version v with the range of the request
ReadWrong(a, r, v) ==
  LET n == Size(v.c)
      want == RangeResult(ParseRange(a.range), n)
      w == IF a.hasrange THEN want ELSE [k |-> "full"]
      common == Wrong(r.meta = v.m, "meta") \cup Wrong(r.etag = v.c, "etag")
                \cup TimeWrong(v, r.mtime)
  IN CASE w.k = "full" -> common \cup Wrong(r.part = FALSE /\ r.http = 200, "range")
                          \cup Wrong(r.body = v.c, "body") \cup Wrong(r.clen = n, "len")
       [] w.k = "part" ->
            common \cup Wrong(r.part /\ r.http = 206, "range")
            \cup (IF r.part
                  THEN Wrong(r.first = w.first /\ r.last = w.last /\ r.total = n, "range")
                       \cup Wrong(v.c \in RangeOf(r.match), "body")
                       \cup Wrong(r.clen = w.last - w.first + 1, "len")
                  ELSE {})
       [] w.k = "err" -> {"st"}
       [] OTHER -> {}

SortedKeys(ks) == \A i \in 1..(Len(ks) - 1) : BLess(KeyBytes[ks[i]], KeyBytes[ks[i + 1]])

ListWrong(S, a, r) ==
  LET want == {o[2] : o \in {o \in BucketObjs(S, a.b) : IsPfx(a.prefix, KeyBytes[o[2]])}}
      got == RangeOf(r.keys)
  IN Wrong(got = want, "list") \cup Wrong(Len(r.keys) = Cardinality(got), "list")
     \cup Wrong(SortedKeys(r.keys), "order")
     \cup Wrong(\A i \in DOMAIN r.keys : Has(S, a.b, r.keys[i])
                   => r.sizes[i] = Size(S.ob[<<a.b, r.keys[i]>>].c), "size")
     \cup Wrong(\A i \in DOMAIN r.keys : Has(S, a.b, r.keys[i])
                   => TimeWrong(S.ob[<<a.b, r.keys[i]>>], r.mtimes[i]) = {}, "mtime")
     \cup Wrong(a.v = 2 => r.count = Len(r.keys), "count")

\* what the store occupies: the current objects, and the parts of unfinished uploads
RECURSIVE SumOver(_, _)
SumOver(D, f) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + SumOver(D \ {x}, f)
PartsOf(S) == UNION {{<<u, n>> : n \in DOMAIN S.up[u].parts} : u \in DOMAIN S.up}
SpaceWrong(S, r) ==
  LET ps == PartsOf(S)
      bytes == SumOver(DOMAIN S.ob, [o \in DOMAIN S.ob |-> Size(S.ob[o].c)])
               + SumOver(ps, [x \in ps |-> Size(S.up[x[1]].parts[x[2]])])
      no == Cardinality(DOMAIN S.ob)
      nu == Cardinality(DOMAIN S.up)
      np == Cardinality(ps)
  IN Wrong(r.bytes <= bytes + 2048 * (no + nu + np) + 8192, "space")
     \cup Wrong(r.files <= 2 * no + nu + np + 1, "files")
     \cup Wrong(r.fds <= r.base + 8, "fds")

\* how often x occurs
Times(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

Mismatch(S, a, r, mem) ==
  CASE a.op \in {"put", "form", "part"} ->
         IF a.op # "part" /\ IsMarker(a.k) THEN {} ELSE Wrong(r.etag = a.c, "etag")
    [] a.op = "get" -> IF IsMarker(a.k) THEN {} ELSE ReadWrong(a, r, S.ob[<<a.b, a.k>>])
    [] a.op = "head" ->
         LET v == S.ob[<<a.b, a.k>>]
         IN IF IsMarker(a.k) THEN {}
            ELSE Wrong(r.meta = v.m, "meta") \cup TimeWrong(v, r.mtime) \cup Wrong(r.clen = Size(v.c), "len")
                 \cup Wrong(r.etag = v.c \/ r.noetag, "etag")
    [] a.op = "list" -> ListWrong(S, a, r)
    [] a.op = "outside" -> Wrong(r.same, "outside")
    [] a.op = "space" -> SpaceWrong(S, r)
    [] a.op = "listbuckets" -> Wrong(RangeOf(r.buckets) = S.bk /\ Len(r.buckets) = Cardinality(S.bk), "list")
    [] a.op = "deletes" ->
         LET asked == RangeOf(a.ks)
             refusable(k) == KeyMay(k) # {} \/ KeyMust(k) # {} \/ IsMarker(k)
         IN Wrong(\A k \in RangeOf(r.errors) : k \in asked /\ (Fault(a) \/ (refusable(k) /\ ~Has(S, a.b, k))), "report")
            \cup (IF a.quiet THEN Wrong(r.deleted = <<>>, "report")
                  ELSE Wrong(RangeOf(r.deleted) \cup RangeOf(r.errors) = asked, "report")
                       \cup Wrong(RangeOf(r.deleted) \cap RangeOf(r.errors) = {}, "report")
                       \cup Wrong(\A k \in asked : Times(r.deleted, k) <= Times(a.ks, k), "report"))
    [] a.op = "copy" -> IF IsMarker(a.k) THEN {} ELSE Wrong(r.etag = CopySrc(S, a, mem).c, "etag")
    [] a.op = "create" -> Wrong(r.u \notin S.used, "uid") \cup Wrong(r.b = a.b /\ r.k = a.k, "echo")
    [] a.op = "complete" ->
         Wrong(r.etag = CatParts(UpOf(S, a, mem).parts, ListedNs(a)), "etag")
         \cup Wrong(r.b = a.b /\ r.k = a.k, "echo")
    [] OTHER -> {}

----------------------------------------------------------------------------
(* one operation with its response *)

\* operations on directory markers and explicitly free requests are not judged
Free(S, a) == \/ a.op = "free"
              \/ a.op \in {"put", "form", "get", "head", "delete", "create"} /\ IsMarker(a.k)
                 /\ a.b \in S.bk
              \/ a.op = "copy" /\ (IsMarker(a.k) \/ IsMarker(a.sk))

\* nothing can be kept under a key that ends in a slash: a content is refused, and a read gives nothing
MarkerWrong(a, r) ==
  IF a.op \in {"put", "form"} THEN Wrong(r.st = "ok" => a.c = <<>>, "st")
  ELSE IF a.op = "get" THEN Wrong(r.st = "ok" => r.body = <<>> /\ r.clen = 0, "body") \cup Wrong(r.st = "ok" => r.meta = "", "meta")
  ELSE IF a.op = "head" THEN Wrong(r.st = "ok" => r.clen = 0, "len") \cup Wrong(r.st = "ok" => r.meta = "", "meta")
  ELSE IF a.op = "copy" THEN Wrong(r.st # "ok", "st")
  ELSE {}

\* a read whose range may or must be refused
RangeErr(S, a) ==
  IF a.op = "get" /\ Has(S, a.b, a.k) /\ a.hasrange
  THEN LET p == ParseRange(a.range)
           w == RangeResult(p, Size(S.ob[<<a.b, a.k>>].c))
       IN [must |-> w.k = "err",
           http |-> CASE w.k = "err" -> w.http
                      [] w.k = "free" -> {400, 416}
                      [] OTHER -> IF p.huge THEN {400} ELSE {}]
  ELSE [must |-> FALSE, http |-> {}]

\* [bad |-> wrong aspects, next |-> state afterwards]
Apply(S, a, r, mem) ==
  LET must == Must(S, a, mem)
      may == MayF(S, a, mem)
      rg == RangeErr(S, a)
  IN IF Free(S, a) THEN [bad |-> MarkerWrong(a, r), next |-> S]
     ELSE IF r.st = "ok" THEN
       IF must # {} \/ rg.must THEN [bad |-> {"st"}, next |-> S]
       ELSE [bad |-> Mismatch(S, a, r, mem), next |-> Effect(S, a, r, mem)]
     ELSE IF r.st = "lost" THEN
       [bad |-> {}, next |-> IF must # {} \/ rg.must THEN S ELSE Effect(S, a, r, mem)]
     ELSE IF rg.http # {} /\ r.http \in rg.http /\ must = {} THEN
       [bad |-> Wrong(r.http = 416 => r.code \in {"InvalidRange", ""}, "code"), next |-> S]
     ELSE IF must = {} /\ may = {} THEN
       [bad |-> IF rg.http # {} THEN {"range"} ELSE {"st"}, next |-> S]
     ELSE [bad |-> (IF ErrIn(r, must \cup may) THEN {} ELSE {"code"})
                   \cup (IF Fault(a) /\ Denies(r) /\ ~ErrIn(r, must) THEN {"denied"} ELSE {}), next |-> S]

\* operations which read at one point and commit at a later one
TwoPhase(a) == a.op \in {"copy", "complete"}

\* the first phase: reads the source of a copy, or the parts of an upload one after the other
StartMem(S, a) == IF a.op = "complete" THEN [k |-> "up", v |-> [parts |-> Nothing, m |-> ""], n |-> 0] ELSE NoMem
ReadAll(a, mem) == mem.k = "src" \/ (mem.k = "up" /\ mem.n = Len(a.parts))

\* what is remembered after the next step of it, or an empty set if it can not succeed
Remember(S, a, mem) ==
  IF a.op = "copy" THEN (IF CopySrcMust(S, a) = {} THEN {[k |-> "src", v |-> S.ob[<<a.sb, a.sk>>]]} ELSE {})
  ELSE IF a.op = "complete" /\ Live(S, a) THEN
    LET p == a.parts[mem.n + 1]
        up == S.up[a.u]
    IN IF p.n \in DOMAIN up.parts /\ PartEtagOk(p, up.parts[p.n])
       THEN {[k |-> "up", n |-> mem.n + 1, v |-> [parts |-> (p.n :> up.parts[p.n]) @@ mem.v.parts, m |-> up.m]]}
       ELSE {}
  ELSE {}
=============================================================================
