#!/usr/bin/env python3
"""Writes spec/Lit.tla: byte strings spelled out (TLC would compute B("...") again at every use)."""
import os
LITS = [("NHost", "host"), ("NAmz", "x-amz-"), ("NS3", "s3"), ("NReq", "aws4_request"), ("NAuthz", "authorization"), ("NDate", "x-amz-date"),
        ("PCred", "Credential="), ("PHdrs", "SignedHeaders="), ("PSig", "Signature="), ("NColon", ":"), ("Sha", "x-amz-content-sha256"),
        ("Algorithm", "AWS4-HMAC-SHA256"), ("Unsigned", "UNSIGNED-PAYLOAD"), ("Streaming", "STREAMING-AWS4-HMAC-SHA256-PAYLOAD"),
        ("QAlg", "X-Amz-Algorithm"), ("QCred", "X-Amz-Credential"), ("QDate", "X-Amz-Date"), ("QExp", "X-Amz-Expires"), ("QHdr", "X-Amz-SignedHeaders"),
        ("QSig", "X-Amz-Signature"), ("FPol", "policy"), ("FAlg", "x-amz-algorithm"), ("FCred", "x-amz-credential"), ("FSig", "x-amz-signature"),
        ("VFormName", "form-data; name=\""), ("VFileName", "; filename=\""), ("NDisp", "content-disposition"), ("NType", "content-type"),
        ("NBucket", "bucket"), ("NKey", "key"), ("NFile", "file"), ("PIgnore", "x-ignore-"), ("PMeta", "x-amz-meta-")]
out = ["-------------------------------- MODULE Lit --------------------------------",
       "(* Written by tools/gen_lit.py: the byte strings that the specification names. *)"]
for n, t in LITS:
    out.append("\\* %s" % t)
    out.append("%s == <<%s>>" % (n, ", ".join(str(x) for x in t.encode())))
out.append("=" * 77)
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Lit.tla"), "w").write("\n".join(out) + "\n")
