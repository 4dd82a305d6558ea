------------------------------ MODULE MC_Store ------------------------------
(* S3Store explored exhaustively with small constants.                      *)
(*                                                                          *)
(* The states are those reachable by all requests that Asked offers, with    *)
(* every answer the specification allows. In each state the properties are   *)
(* evaluated for every request and answer. The transitions are printed for   *)
(* the driver (vlib/tour.py), which carries them out on the real server and  *)
(* has the responses judged by S3Trace.                                      *)
EXTENDS S3Store, Json

CONSTANTS Names,      \* the keys, as strings
          Buckets, Metas,
          Contents,   \* of puts: pairs <<content, metadata>>
          Pfxs,   \* of listings, as strings
          Ups,        \* slots for uploads: function to the parts <<n, content>> that may be uploaded
          UpKeys,     \* keys of uploads
          CopyTo,     \* metadata of copies with REPLACE
          Many,       \* the lists of DeleteObjects
          Without,    \* operations that are left out
          Emit        \* print the transitions

VARIABLE st
\* the id of the last upload that was completed is called "old"
Old == "old"
Bogus == "bogus"

MCKeyBytes == [i \in DOMAIN Names |-> B(Names[i])]
MCSegLen == [i \in 1..4 |-> <<1, 2, 5, 9>>[i]]
Ks == DOMAIN Names
Rec(op) == [op |-> op]

----------------------------------------------------------------------------
(* requests *)

BucketOps == {[op |-> o, b |-> b] : o \in {"createbucket", "deletebucket", "headbucket", "location"}, b \in Buckets}
ListOps == {[op |-> "list", b |-> b, prefix |-> B(p), v |-> v] : b \in Buckets, p \in Pfxs, v \in {1, 2}}
PutOp(op, b, k, x, brk, md5) == [op |-> op, b |-> b, k |-> k, c |-> x[1], m |-> x[2], broken |-> brk, md5 |-> md5]
PutOps == {PutOp("put", b, k, x, FALSE, "none") : b \in Buckets, k \in Ks, x \in Contents}
          \cup {PutOp("form", b, k, x, FALSE, "none") : b \in Buckets, k \in Ks, x \in {CHOOSE y \in Contents : TRUE}}
          \cup {PutOp("put", b, k, CHOOSE y \in Contents : TRUE, z[1], z[2]) :
                  b \in Buckets, k \in Ks, z \in {<<TRUE, "none">>, <<FALSE, "bad">>, <<FALSE, "good">>}}
Ranges == {"bytes=0-0", "bytes=1-", "bytes=-1", "bytes=5-6", "bytes=-0", "x"}
GetOps == {[op |-> o, b |-> b, k |-> k, hasrange |-> FALSE, range |-> <<>>] : o \in {"get", "head"}, b \in Buckets, k \in Ks}
          \cup {[op |-> "get", b |-> b, k |-> k, hasrange |-> TRUE, range |-> B(g)] : b \in Buckets, k \in Ks, g \in Ranges}
DelOps == {[op |-> "delete", b |-> b, k |-> k] : b \in Buckets, k \in Ks}
          \cup {[op |-> "deletes", b |-> b, ks |-> ks, quiet |-> q] : b \in Buckets, ks \in Many, q \in BOOLEAN}
CopyOps == {[op |-> "copy", sb |-> sb, sk |-> sk, b |-> b, k |-> k, replace |-> FALSE, m |-> ""] :
              sb \in Buckets, sk \in Ks, b \in Buckets, k \in Ks}
           \cup {[op |-> "copy", sb |-> sb, sk |-> sk, b |-> b, k |-> k, replace |-> TRUE, m |-> m] :
              sb \in Buckets, sk \in Ks, b \in Buckets, k \in Ks, m \in CopyTo}

\* part lists of completions: with and without ETags, incomplete, reversed, repeated
Ns == UNION {{x[1] : x \in Ups[u]} : u \in DOMAIN Ups}
P(n, e, c) == [n |-> n, e |-> e, c |-> c]
Lists(S, u) ==
  LET parts == IF u \in DOMAIN S.up THEN S.up[u].parts ELSE Nothing
      cur(n) == IF n \in DOMAIN parts THEN parts[n] ELSE <<>>
      es(n) == {P(n, "none", <<>>), P(n, "bogus", <<>>)} \cup {P(n, "some", x[2]) : x \in {x \in UNION {Ups[v] : v \in DOMAIN Ups} : x[1] = n}}
      good(n) == P(n, "some", cur(n))
  IN {<<>>} \cup {<<p>> : p \in UNION {es(n) : n \in Ns}}
     \cup {<<good(x), good(y)>> : x \in Ns, y \in Ns}
     \cup {<<good(x), p>> : x \in Ns, p \in UNION {es(n) : n \in Ns}}
UpOps(S) ==
  {[op |-> "create", b |-> b, k |-> k, m |-> m] : b \in Buckets, k \in UpKeys, m \in Metas}
  \cup UNION {{[op |-> "part", u |-> u, b |-> b, k |-> k, n |-> x[1], c |-> x[2], broken |-> y[1], md5 |-> y[2]] :
          x \in Ups[u], b \in Buckets, k \in Ks, y \in {<<FALSE, "none">>, <<TRUE, "none">>, <<FALSE, "bad">>}} : u \in DOMAIN Ups}
  \cup {[op |-> "part", u |-> u, b |-> b, k |-> k, n |-> n, c |-> <<1>>, broken |-> FALSE, md5 |-> "none"] :
          u \in {Old, Bogus}, b \in Buckets, k \in UpKeys, n \in {1}}
  \cup {[op |-> "part", u |-> u, b |-> b, k |-> k, n |-> n, c |-> <<1>>, broken |-> FALSE, md5 |-> "none"] :
          u \in DOMAIN Ups, b \in Buckets, k \in UpKeys, n \in {0, 10001}}
  \cup UNION {{[op |-> "complete", u |-> u, b |-> b, k |-> k, parts |-> ps] : b \in Buckets, k \in Ks, ps \in Lists(S, u)} :
                 u \in DOMAIN Ups \cup {Old}}
  \cup {[op |-> "complete", u |-> Bogus, b |-> b, k |-> k, parts |-> <<P(1, "none", <<>>)>>] : b \in Buckets, k \in UpKeys}

\* requests about uploads name slots that are in use (those that are not are like the bogus one)
Known(S, a) == a.op \in {"part", "complete"} => a.u = Bogus \/ a.u \in S.used
Room(S) == {u \in DOMAIN Ups : u \notin DOMAIN S.up}
Asked(S) == {a \in BucketOps \cup ListOps \cup PutOps \cup GetOps \cup DelOps \cup CopyOps \cup (IF Ups = Nothing THEN {} ELSE UpOps(S))
               \cup {Rec("listbuckets")} :
               a.op \notin Without /\ Known(S, a) /\ (a.op = "create" => Room(S) # {})}

----------------------------------------------------------------------------
(* answers *)

CodeFrom(cs) == IF cs \ {AnyCode} = {} THEN "InternalError" ELSE CHOOSE c \in cs \ {AnyCode} : TRUE
Refusal(cs) == [st |-> "err", code |-> CodeFrom(cs), http |-> HttpOf(CodeFrom(cs))]
RangeRefusal(hs) == LET h == CHOOSE h \in hs : TRUE IN [st |-> "err", code |-> IF h = 416 THEN "InvalidRange" ELSE "InvalidArgument", http |-> h]

OkGet(S, a) ==
  LET v == S.ob[<<a.b, a.k>>]
      n == Size(v.c)
      w == IF a.hasrange THEN RangeResult(ParseRange(a.range), n) ELSE [k |-> "full"]
      base == [st |-> "ok", meta |-> v.m, etag |-> v.c, noetag |-> FALSE, mtime |-> ""]
  IN IF w.k = "part" THEN base @@ [http |-> 206, part |-> TRUE, first |-> w.first, last |-> w.last, total |-> n,
                                   match |-> <<v.c>>, clen |-> w.last - w.first + 1, body |-> <<>>]
     ELSE base @@ [http |-> 200, part |-> FALSE, body |-> v.c, clen |-> n]
OkList(S, a) ==
  LET want == {o[2] : o \in {o \in BucketObjs(S, a.b) : IsPfx(a.prefix, KeyBytes[o[2]])}}
      ks == SetToSortSeq(want, LAMBDA x, y : BLess(KeyBytes[x], KeyBytes[y]))
  IN [st |-> "ok", http |-> 200, keys |-> ks, count |-> Len(ks), mtimes |-> [i \in DOMAIN ks |-> ""],
      sizes |-> [i \in DOMAIN ks |-> Size(S.ob[<<a.b, ks[i]>>].c)]]
OkDeletes(a) == [st |-> "ok", http |-> 200, errors |-> <<>>, deleted |-> IF a.quiet THEN <<>> ELSE a.ks]
Slot(S) == CHOOSE u \in Room(S) : TRUE
Ok(S, a) ==
  LET R == [st |-> "ok", http |-> 200]
  IN CASE a.op \in {"get", "head"} -> OkGet(S, a)
       [] a.op = "list" -> OkList(S, a)
       [] a.op = "listbuckets" -> [buckets |-> SetToSeq(S.bk)] @@ R
       [] a.op \in {"put", "form", "part"} -> [etag |-> a.c] @@ R
       [] a.op = "deletes" -> OkDeletes(a)
       [] a.op = "copy" -> [etag |-> S.ob[<<a.sb, a.sk>>].c] @@ R
       [] a.op = "create" -> [u |-> Slot(S), b |-> a.b, k |-> a.k] @@ R
       [] a.op = "complete" -> [etag |-> CatParts(S.up[a.u].parts, ListedNs(a)), b |-> a.b, k |-> a.k] @@ R
       [] OTHER -> R

Answers(S, a) ==
  LET must == Must(S, a, NoMem)
      may == May(S, a, NoMem)
      rg == RangeErr(S, a)
  IN (IF must \cup may # {} THEN {Refusal(must \cup may)} ELSE {})
     \cup (IF must = {} /\ rg.http # {} THEN {RangeRefusal(rg.http)} ELSE {})
     \cup (IF must = {} /\ ~rg.must THEN {Ok(S, a)} ELSE {})

\* a completed upload keeps the name "old" until the next one is completed
Norm(T, a, r) ==
  LET U == IF a.op = "complete" /\ r.st = "ok" THEN [T EXCEPT !.used = @ \cup {Old}] ELSE T
  IN [U EXCEPT !.used = (@ \cap {Old}) \cup DOMAIN U.up]
After(S, a, r) == Apply(S, a, r, NoMem).next
To(S, a, r) == Norm(After(S, a, r), a, r)

\* states are printed in one form
BSeq == SetToSeq(Buckets)
USeq == SetToSeq(DOMAIN Ups)
Id(S) == ToString(<<[i \in DOMAIN BSeq |-> BSeq[i] \in S.bk],
                    [i \in DOMAIN BSeq |-> [k \in Ks |-> IF <<BSeq[i], k>> \in DOMAIN S.ob THEN <<S.ob[<<BSeq[i], k>>].c, S.ob[<<BSeq[i], k>>].m>> ELSE <<>>]],
                    [i \in DOMAIN USeq |-> IF USeq[i] \in DOMAIN S.up
                       THEN LET u == S.up[USeq[i]] IN <<u.b, u.k, u.m, u.stale, [n \in 1..3 |-> IF n \in DOMAIN u.parts THEN <<u.parts[n]>> ELSE <<>>]>>
                       ELSE <<>>],
                    Old \in S.used>>)

Init == st = Empty
Next == \E a \in Asked(st) : \E r \in Answers(st, a) :
          /\ st' = To(st, a, r)
          /\ IF Emit THEN PrintT("EDGE " \o ToJson([f |-> Id(st), a |-> a, o |-> IF a.op = "create" /\ r.st = "ok" THEN "ok:" \o r.u ELSE r.st, t |-> Id(To(st, a, r))])) ELSE TRUE
Spec == Init /\ [][Next]_st

----------------------------------------------------------------------------
(* the properties, in every state for every request and every answer *)

Every(Pr(_, _, _)) == \A a \in Asked(st) : \A r \in Answers(st, a) : Pr(a, r, To(st, a, r))

\* the objects an operation may change
Named(a) == CASE a.op \in {"put", "form", "delete", "copy", "complete"} -> {<<a.b, a.k>>}
              [] a.op = "deletes" -> {<<a.b, k>> : k \in RangeOf(a.ks)}
              [] OTHER -> {}
At(S, o) == IF o \in DOMAIN S.ob THEN <<S.ob[o].c, S.ob[o].m>> ELSE <<>>
UpAt(S, u) == IF u \in DOMAIN S.up THEN <<S.up[u].b, S.up[u].k, S.up[u].m, S.up[u].parts>> ELSE <<>>
AllObs(T) == DOMAIN st.ob \cup DOMAIN T.ob

TypeOK == /\ DOMAIN st.ob \subseteq Buckets \X Ks /\ st.bk \subseteq Buckets
          /\ \A o \in DOMAIN st.ob : o[1] \in st.bk
          /\ \A u \in DOMAIN st.up : \A n \in DOMAIN st.up[u].parts : n \in 1..10000
\* the answers that are called right are accepted, and everything is answered
RightAnswers == Every(LAMBDA a, r, T : Apply(st, a, r, NoMem).bad = {}) /\ \A a \in Asked(st) : Answers(st, a) # {}
\* C01, C10, C20, C21: nothing but the named objects changes
Frame == Every(LAMBDA a, r, T : \A o \in AllObs(T) \ Named(a) : At(T, o) = At(st, o))
\* C02, C03, C25, C27
RefusedChangesNothing == Every(LAMBDA a, r, T : r.st = "err" => T = st)
\* C01, C04: a write is there afterwards, with its own metadata
Written == Every(LAMBDA a, r, T : a.op \in {"put", "form"} /\ r.st = "ok" => At(T, <<a.b, a.k>>) = <<a.c, a.m>>)
\* reading changes nothing
ReadsArePure == Every(LAMBDA a, r, T : a.op \in {"get", "head", "list", "listbuckets", "headbucket", "location"} => T = st)
\* C06
BucketLife == Every(LAMBDA a, r, T :
  \/ T.bk = st.bk
  \/ a.op = "createbucket" /\ a.b \notin st.bk /\ T.bk = st.bk \cup {a.b} /\ ~\E o \in DOMAIN T.ob : o[1] = a.b
  \/ a.op = "deletebucket" /\ T.bk = st.bk \ {a.b} /\ T.ob = st.ob /\ ~\E o \in DOMAIN st.ob : o[1] = a.b)
NeedsBucket == Every(LAMBDA a, r, T : "b" \in DOMAIN a /\ a.b \notin st.bk /\ a.op # "createbucket"
                                        => r.st = "err" \/ a.op \in {"part"})
\* C07
Completed == Every(LAMBDA a, r, T : a.op = "complete" /\ r.st = "ok" =>
  LET up == st.up[a.u] ns == ListedNs(a)
  IN /\ ns # <<>> /\ Ascending(ns) /\ RangeOf(ns) \subseteq DOMAIN up.parts
     /\ At(T, <<a.b, a.k>>) = <<CatParts(up.parts, ns), up.m>>
     /\ \A i \in DOMAIN a.parts : a.parts[i].e = "some" => a.parts[i].c = up.parts[ns[i]]
     /\ \A i \in DOMAIN a.parts : a.parts[i].e # "bogus")
\* C08: an upload is changed by its own operations only, and gone once completed
OwnUploads == Every(LAMBDA a, r, T : \A u \in DOMAIN st.up \cup DOMAIN T.up :
  \/ UpAt(T, u) = UpAt(st, u)
  \/ a.op = "create" /\ u \notin DOMAIN st.up /\ T.up[u].parts = Nothing /\ T.up[u].m = a.m
  \/ a.op = "part" /\ a.u = u /\ st.up[u].b = a.b /\ st.up[u].k = a.k /\ T.up[u].parts = (a.n :> a.c) @@ st.up[u].parts
  \/ a.op = "complete" /\ a.u = u /\ u \notin DOMAIN T.up)
ForeignIds == Every(LAMBDA a, r, T : a.op \in {"part", "complete"} /\ ~Live(st, a) => r.st = "err" /\ T = st)
\* C09, C19: what a read tells
Reads == Every(LAMBDA a, r, T : a.op = "get" /\ r.st = "ok" =>
  LET c == st.ob[<<a.b, a.k>>].c IN r.etag = c /\ (r.part => r.last < Size(c) /\ r.first <= r.last /\ r.clen = r.last - r.first + 1))
\* C20
Copied == Every(LAMBDA a, r, T : a.op = "copy" /\ r.st = "ok" =>
  LET s == st.ob[<<a.sb, a.sk>>] IN At(T, <<a.b, a.k>>) = <<s.c, IF a.replace THEN a.m ELSE s.m>>)
\* C21
Deleted == Every(LAMBDA a, r, T : a.op \in {"delete", "deletes"} /\ r.st = "ok" => \A o \in Named(a) : o \notin DOMAIN T.ob)
\* C29: all views agree on what exists
Views == Every(LAMBDA a, r, T : a.op \in {"get", "head"} =>
  LET ls == {x \in Asked(st) : x.op = "list" /\ x.b = a.b /\ x.prefix = <<>>}
  IN (r.st = "err" /\ r.code \in {"NoSuchKey", "NoSuchBucket"}) <=>
     \A x \in ls : \A y \in Answers(st, x) : y.st = "ok" => a.k \notin RangeOf(y.keys))

\* the specification tells right answers from wrong ones: every single change to a right answer is noticed
Other(x) == IF x = <<1>> THEN <<2>> ELSE <<1>>
Wrongs(a, r) ==
  IF r.st = "err" THEN {}
  ELSE {[r EXCEPT ![f] = Other(@)] : f \in {"etag"} \cap DOMAIN r}
       \cup (IF a.op = "get" /\ ~r.part THEN {[r EXCEPT !.body = Other(@)], [r EXCEPT !.clen = @ + 1], [r EXCEPT !.http = 206]} ELSE {})
       \cup (IF a.op = "get" /\ r.part THEN {[r EXCEPT !.match = <<>>], [r EXCEPT !.last = @ + 1], [r EXCEPT !.total = @ + 1], [r EXCEPT !.http = 200]} ELSE {})
       \cup (IF a.op \in {"get", "head"} THEN {[r EXCEPT !.meta = @ \o "x"]} ELSE {})
       \cup (IF a.op = "list" THEN {[r EXCEPT !.keys = Tail(@)] : z \in IF r.keys = <<>> THEN {} ELSE {1}}
              \cup {[r EXCEPT !.keys = <<@[2], @[1]>> \o SubSeq(@, 3, Len(@))] : z \in IF Len(r.keys) < 2 THEN {} ELSE {1}}
              \cup {[r EXCEPT !.keys = <<Head(@)>> \o @, !.sizes = <<Head(@)>> \o @, !.mtimes = <<"">> \o @, !.count = @ + 1] :
                      z \in IF r.keys = <<>> THEN {} ELSE {1}}
              \cup {[r EXCEPT !.sizes[1] = @ + 1] : z \in IF r.keys = <<>> THEN {} ELSE {1}}
              \cup (IF a.v = 2 THEN {[r EXCEPT !.count = @ + 1]} ELSE {})
            ELSE {})
       \cup (IF a.op = "listbuckets" THEN {[r EXCEPT !.buckets = <<"other">> \o @]}
               \cup {[r EXCEPT !.buckets = Tail(@)] : z \in IF r.buckets = <<>> THEN {} ELSE {1}} ELSE {})
       \cup (IF a.op = "deletes" THEN {[r EXCEPT !.errors = a.ks]}
               \cup (IF a.quiet THEN {[r EXCEPT !.deleted = a.ks]} ELSE {[r EXCEPT !.deleted = Tail(@)] : z \in IF Len(a.ks) # Cardinality(RangeOf(a.ks)) THEN {} ELSE {1}})
             ELSE {})
       \cup (IF a.op \in {"create", "complete"} THEN {[r EXCEPT !.b = @ \o "x"], [r EXCEPT !.k = @ + 1]} ELSE {})
       \cup (IF a.op = "create" THEN {[r EXCEPT !.u = u] : u \in st.used} ELSE {})
Ioerror == [st |-> "err", code |-> "InternalError", http |-> 500]
Sensitive == Every(LAMBDA a, r, T :
  /\ \A w \in Wrongs(a, r) : Apply(st, a, w, NoMem).bad # {}
  /\ Must(st, a, NoMem) \cup May(st, a, NoMem) = {} => Apply(st, a, Ioerror, NoMem).bad # {}
  /\ AnyCode \notin Must(st, a, NoMem) \cup May(st, a, NoMem) /\ RangeErr(st, a).http = {} => Apply(st, a, Ioerror, NoMem).bad # {})
=============================================================================
