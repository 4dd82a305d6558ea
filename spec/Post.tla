-------------------------------- MODULE Post --------------------------------
(* A form POST upload: what its multipart/form-data body means, and whether *)
(* its policy permits it.                                                   *)
(*                                                                          *)
(*   form  ::=  [CRLF] delim CRLF part (CRLF delim CRLF part)* CRLF delim "--" *)
(*   delim ::=  "--" boundary                                               *)
(*   part  ::=  header lines, an empty line, content                        *)
(*                                                                          *)
(* The first part with a file name is the file; parts behind it do not count. *)
EXTENDS Bytes, Lit

CR == 13  LF == 10  Quote == 34
CRLF == <<13, 10>>
Dashes == <<45, 45>>

\* positions where CRLF "--" boundary starts
Delims(body, boundary) ==
  LET d == CRLF \o Dashes \o boundary
      n == Len(d)
  IN SetToSortSeq({i \in 1..(Len(body) - n + 1) : body[i] = CR /\ SubSeq(body, i, i + n - 1) = d}, LAMBDA p, q : p < q)

\* a header line "name: value" -> <<lower case name, value>>
HeaderLine(l) == LET c == Index(l, 58) IN <<LowerB(SubSeq(l, 1, c - 1)), Trim(SubSeq(l, c + 1, Len(l)))>>

\* split at CRLF
Lines(s) == LET P == SetToSortSeq({i \in 1..(Len(s) - 1) : s[i] = CR /\ s[i + 1] = LF}, LAMBDA p, q : p < q)
                n == Len(P)
            IN IF n = 0 THEN <<s>>
               ELSE <<SubSeq(s, 1, P[1] - 1)>> \o [i \in 1..n |-> SubSeq(s, P[i] + 2, IF i = n THEN Len(s) ELSE P[i + 1] - 1)]

\* form-data; name="..." [; filename="..."]
Disposition(v) ==
  LET rest == Drop(v, Len(VFormName))
      q == Index(rest, Quote)
      name == SubSeq(rest, 1, q - 1)
      more == SubSeq(rest, q + 1, Len(rest))
      file == Drop(more, Len(VFileName))
      fq == Index(file, Quote)
  IN IF ~IsPfx(VFormName, v) \/ q <= 1 THEN [kind |-> "odd"]
     ELSE IF more = <<>> THEN [kind |-> "field", name |-> name]
     ELSE IF IsPfx(VFileName, more) /\ fq = Len(file) /\ fq > 1 THEN [kind |-> "file", name |-> name]
     ELSE [kind |-> "odd"]

\* the part between positions i and j (exclusive)
PartOf(body, i, j) ==
  LET ends == {k \in i..(j - 4) : SubSeq(body, k, k + 3) = CRLF \o CRLF}
      e == MinOf(ends)
      hs == [k \in DOMAIN Lines(SubSeq(body, i, e - 1)) |-> HeaderLine(Lines(SubSeq(body, i, e - 1))[k])] \o <<>>
      H(n) == SelectSeq(hs, LAMBDA h : h[1] = n)
      d == IF Len(H(NDisp)) = 1 THEN Disposition(H(NDisp)[1][2]) ELSE [kind |-> "odd"]
  IN IF ends = {} THEN [kind |-> "odd"]
     ELSE IF d.kind = "odd" \/ Len(hs) > 10 THEN [kind |-> "odd"]
     ELSE IF d.kind = "file" /\ Len(H(NType)) > 1 THEN [kind |-> "odd"]
     ELSE [kind |-> d.kind, name |-> LowerB(d.name), value |-> SubSeq(body, e + 4, j - 1)]

\* what follows the delimiter at p: "part", "end" or "odd"
After(body, boundary, p) ==
  LET q == p + 4 + Len(boundary)
      x == SubSeq(body, q, MinN(q + 1, Len(body)))
  IN IF x = CRLF THEN "part" ELSE IF x = Dashes THEN "end" ELSE "odd"

\* The meaning of a body: v = "ok", "fail", or "free" (not well formed, but it has a delimiter behind the file)
\* file: its content; fields: <<lower case name, value>> in their order
Form(body0, boundary) ==
  LET body == CRLF \o body0
      ds == Delims(body, boundary)
      n == Len(ds)
      from(k) == ds[k] + 6 + Len(boundary)
      parts == [k \in 1..(n - 1) |-> PartOf(body, from(k), ds[k + 1])] \o <<>>
      files == {k \in 1..(n - 1) : parts[k].kind = "file"}
      f == MinOf(files)
  IN IF n = 0 THEN [v |-> "fail"]
     ELSE IF ds[1] # 1 /\ ~(ds[1] = 3 /\ SubSeq(body, 3, 4) = CRLF) THEN [v |-> "fail"]
     ELSE IF files = {} THEN [v |-> IF \E k \in 1..(n - 1) : parts[k].kind = "odd" THEN "odd" ELSE "fail"]
     ELSE LET good == /\ \A k \in 1..f : parts[k].kind # "odd" /\ After(body, boundary, ds[k]) = "part"
                      /\ After(body, boundary, ds[f + 1]) # "odd"
                      /\ \E k \in (f + 1)..n : After(body, boundary, ds[k]) = "end"
              simple == \A k \in 1..(f - 1) : parts[k].kind = "field"
          IN [v |-> IF good THEN "ok" ELSE "free", known |-> simple,
              fields |-> IF simple THEN [k \in 1..(f - 1) |-> <<parts[k].name, parts[k].value>>] ELSE <<>>,
              file |-> parts[f].value]

----------------------------------------------------------------------------
(* The policy. A condition is a record                                      *)
(*   op     "eq", "starts", "range" or "bad" (something else)               *)
(*   name, value     for eq and starts (name in lower case)                 *)
(*   min, max        for range                                              *)

Vals(fields, name) == LET m == SelectSeq(fields, LAMBDA p : p[1] = name) IN [i \in DOMAIN m |-> m[i][2]] \o <<>>
\* with duplicates, pick tells which counts
Val(fields, name, pick) == LET vs == Vals(fields, name) IN IF vs = <<>> THEN <<>> ELSE IF pick = "first" THEN vs[1] ELSE vs[Len(vs)]

CondVal(c, bucket, fields, pick) == IF c.name = NBucket THEN bucket ELSE Val(fields, c.name, pick)
Sat(c, bucket, fields, size, pick) ==
  CASE c.op = "eq" -> CondVal(c, bucket, fields, pick) = c.value
    [] c.op = "starts" -> IsPfx(c.value, CondVal(c, bucket, fields, pick))
    [] c.op = "range" -> c.min <= size /\ size <= c.max
    [] OTHER -> FALSE

Exempt(n) == n \in {FPol, FSig, NFile} \/ IsPfx(PIgnore, n)
Covered(n, conds) == \E i \in DOMAIN conds : conds[i].op \in {"eq", "starts"} /\ conds[i].name = n

\* exp, now: <<days, seconds>>
Later(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])

Permits(p, bucket, fields, size, pick) ==
  /\ \A i \in DOMAIN p.conds : Sat(p.conds[i], bucket, fields, size, pick)
  /\ \A i \in DOMAIN fields : Exempt(fields[i][1]) \/ Covered(fields[i][1], p.conds)

----------------------------------------------------------------------------
(* The upload: which objects a request may leave                            *)

MetaOf(fields, pick) ==
  LET names == {fields[i][1] : i \in {i \in DOMAIN fields : IsPfx(PMeta, fields[i][1]) /\ Len(fields[i][1]) > Len(PMeta)}}
  IN {<<Drop(n, Len(PMeta)), Val(fields, n, pick)>> : n \in names}

PlainMeta(fields) == \A i \in DOMAIN fields : IsPfx(PMeta, fields[i][1]) =>
  /\ \A k \in DOMAIN fields[i][2] : fields[i][2][k] \in 32..126
  /\ Trim(fields[i][2]) = fields[i][2]
  /\ \A k \in DOMAIN fields[i][1] : IsAlpha(fields[i][1][k]) \/ IsDigit(fields[i][1][k]) \/ fields[i][1][k] = 45

Unique(fields) == \A i, j \in DOMAIN fields : fields[i][1] = fields[j][1] => i = j

\* The outcomes of a request r = [body, boundary, cut, bucket, policy, now]:
\*   "refuse" possible, and the set of objects <<key, content, metadata>> it may store
Outcome(r) ==
  LET form == Form(r.body, r.boundary)
      size == Len(form.file)
      picks == {pick \in {"first", "last"} : Permits(r.policy, r.bucket, form.fields, size, pick)}
      can == {<<Val(form.fields, NKey, pick), form.file, MetaOf(form.fields, pick)>> : pick \in picks}
      clear == /\ form.v = "ok" /\ ~r.cut /\ Unique(form.fields) /\ PlainMeta(form.fields)
               /\ Later(r.policy.exp, r.now)
               \* a condition on a field that the form does not have
               /\ \A i \in DOMAIN r.policy.conds : r.policy.conds[i].op \in {"eq", "starts"} =>
                    r.policy.conds[i].name = NBucket \/ Vals(form.fields, r.policy.conds[i].name) # <<>>
  IN IF form.v = "fail" THEN [refuse |-> TRUE, any |-> FALSE, store |-> {}]
     ELSE IF form.v = "odd" THEN [refuse |-> TRUE, any |-> TRUE, store |-> {}]
     ELSE IF ~form.known THEN [refuse |-> TRUE, any |-> TRUE, store |-> {}]
     ELSE IF Later(r.now, r.policy.exp) \/ Vals(form.fields, NKey) = <<>> THEN [refuse |-> TRUE, any |-> FALSE, store |-> {}]
     ELSE [refuse |-> ~clear \/ can = {}, any |-> FALSE, store |-> can]
=============================================================================
