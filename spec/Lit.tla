-------------------------------- MODULE Lit --------------------------------
(* Written by tools/gen_lit.py: the byte strings that the specification names. *)
\* host
NHost == <<104, 111, 115, 116>>
\* x-amz-
NAmz == <<120, 45, 97, 109, 122, 45>>
\* s3
NS3 == <<115, 51>>
\* aws4_request
NReq == <<97, 119, 115, 52, 95, 114, 101, 113, 117, 101, 115, 116>>
\* authorization
NAuthz == <<97, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110>>
\* x-amz-date
NDate == <<120, 45, 97, 109, 122, 45, 100, 97, 116, 101>>
\* Credential=
PCred == <<67, 114, 101, 100, 101, 110, 116, 105, 97, 108, 61>>
\* SignedHeaders=
PHdrs == <<83, 105, 103, 110, 101, 100, 72, 101, 97, 100, 101, 114, 115, 61>>
\* Signature=
PSig == <<83, 105, 103, 110, 97, 116, 117, 114, 101, 61>>
\* :
NColon == <<58>>
\* x-amz-content-sha256
Sha == <<120, 45, 97, 109, 122, 45, 99, 111, 110, 116, 101, 110, 116, 45, 115, 104, 97, 50, 53, 54>>
\* AWS4-HMAC-SHA256
Algorithm == <<65, 87, 83, 52, 45, 72, 77, 65, 67, 45, 83, 72, 65, 50, 53, 54>>
\* UNSIGNED-PAYLOAD
Unsigned == <<85, 78, 83, 73, 71, 78, 69, 68, 45, 80, 65, 89, 76, 79, 65, 68>>
\* STREAMING-AWS4-HMAC-SHA256-PAYLOAD
Streaming == <<83, 84, 82, 69, 65, 77, 73, 78, 71, 45, 65, 87, 83, 52, 45, 72, 77, 65, 67, 45, 83, 72, 65, 50, 53, 54, 45, 80, 65, 89, 76, 79, 65, 68>>
\* X-Amz-Algorithm
QAlg == <<88, 45, 65, 109, 122, 45, 65, 108, 103, 111, 114, 105, 116, 104, 109>>
\* X-Amz-Credential
QCred == <<88, 45, 65, 109, 122, 45, 67, 114, 101, 100, 101, 110, 116, 105, 97, 108>>
\* X-Amz-Date
QDate == <<88, 45, 65, 109, 122, 45, 68, 97, 116, 101>>
\* X-Amz-Expires
QExp == <<88, 45, 65, 109, 122, 45, 69, 120, 112, 105, 114, 101, 115>>
\* X-Amz-SignedHeaders
QHdr == <<88, 45, 65, 109, 122, 45, 83, 105, 103, 110, 101, 100, 72, 101, 97, 100, 101, 114, 115>>
\* X-Amz-Signature
QSig == <<88, 45, 65, 109, 122, 45, 83, 105, 103, 110, 97, 116, 117, 114, 101>>
\* policy
FPol == <<112, 111, 108, 105, 99, 121>>
\* x-amz-algorithm
FAlg == <<120, 45, 97, 109, 122, 45, 97, 108, 103, 111, 114, 105, 116, 104, 109>>
\* x-amz-credential
FCred == <<120, 45, 97, 109, 122, 45, 99, 114, 101, 100, 101, 110, 116, 105, 97, 108>>
\* x-amz-signature
FSig == <<120, 45, 97, 109, 122, 45, 115, 105, 103, 110, 97, 116, 117, 114, 101>>
\* form-data; name="
VFormName == <<102, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 110, 97, 109, 101, 61, 34>>
\* ; filename="
VFileName == <<59, 32, 102, 105, 108, 101, 110, 97, 109, 101, 61, 34>>
\* content-disposition
NDisp == <<99, 111, 110, 116, 101, 110, 116, 45, 100, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110>>
\* content-type
NType == <<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>
\* bucket
NBucket == <<98, 117, 99, 107, 101, 116>>
\* key
NKey == <<107, 101, 121>>
\* file
NFile == <<102, 105, 108, 101>>
\* x-ignore-
PIgnore == <<120, 45, 105, 103, 110, 111, 114, 101, 45>>
\* x-amz-meta-
PMeta == <<120, 45, 97, 109, 122, 45, 109, 101, 116, 97, 45>>
=============================================================================
