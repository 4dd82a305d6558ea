import json
FS="src/storages/fs.rs"; SV="src/service.rs"; SIG="src/signature_v4.rs"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d["anchors"]["observe_at"]=observe or ["HTTP response of S3Service::hyper_call"]
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title)); P.append(d)
p("C01","A stored object reads back exactly as it was written",
 "After PutObject or a form POST upload succeeds, GetObject on that bucket and key returns exactly the bytes and the user metadata that were sent, until a later successful operation on the same bucket and key changes it. Operations on any other bucket or key never change what it returns. This holds for every accepted key that does not end in '/' (unicode, spaces, '+', '%', dots, deep or long names), every body size and every way the body is split into network frames.",
 ["inputs","histories"],"every history of operations, every accepted key, body size, framing and metadata set",
 "The tests write one or two short ASCII objects in a single frame and look at the file on disk; they never read back through the API after a history of other operations.",
 [FS,"src/ops/put_object.rs","src/ops/get_object.rs","src/data_structures/bytes_stream.rs","src/streams/multipart.rs"],
 [("put_object writes, get_object streams",FS),("BytesStream copies file to body","src/data_structures/bytes_stream.rs")],
 [("object file","content of (bucket,key)","root/bucket/key"),("metadata file","user metadata of (bucket,key)","root/.bucket-*.object-*.metadata.json")])
p("C02","A request that is refused changes nothing",
 "When a request is answered with an error, every bucket, every object (content and metadata) and every in-progress multipart upload is exactly as it was before the request. This covers every operation and every reason for the refusal: missing bucket, key or upload, name conflicts, bad parameters, bad signature, malformed body.",
 ["inputs","histories"],"every reachable store state and every refused request",
 "The few error tests look only at the status code and message of one request and never at the state afterwards.",
 [FS,SV,"src/ops.rs"],[("operations validate before they modify",FS),("check_signature runs before dispatch",SV)])
p("C03","Object uploads are all-or-nothing",
 "If the body of a PutObject, form POST or UploadPart cannot be received completely and verified (the connection breaks, the signed chunk stream is invalid or truncated, the form is not terminated, the client goes away), the previous object (content and metadata) or part stays exactly as it was and no object appears where there was none. While an upload is in progress readers and listings see only the previous state.",
 ["inputs","fault_sequences","schedules"],"every break point of every body and every moment at which a reader looks",
 "No test sends a broken body, and none reads while an upload is in progress.",
 [FS,"src/streams/aws_chunked_stream.rs","src/streams/multipart.rs"],[("write to a temporary file, then rename",FS)])
p("C04","User metadata always belongs to the current version of the object",
 "The user metadata returned by GetObject and HeadObject is exactly the set supplied by the operation that produced the current version of the object: none if that operation supplied none, and never anything left over from an earlier, overwritten or deleted object or bucket of the same name.",
 ["histories","inputs"],"every history of puts, copies, multipart completions and deletes on the same names",
 "No test sets user metadata; staleness needs an overwrite or a delete followed by a re-creation.",
 [FS,"src/ops/put_object.rs","src/utils/response.rs"],[("save_metadata/load_metadata",FS)])
p("C05","Listings report exactly the existing objects and buckets",
 "ListObjects and ListObjectsV2 return exactly the objects that exist in the bucket and whose key starts with the requested prefix, each once, in ascending byte order of the key, with the object's real size, and V2's key count equals their number; with encoding-type=url the keys are percent-encoded. ListBuckets returns exactly the existing buckets.",
 ["inputs","histories"],"every store state reachable by a history and every prefix",
 "The listing tests use at most one bucket and no nested keys or prefixes; order, nesting and prefix boundaries are never varied.",
 [FS,"src/ops/list_objects.rs","src/ops/list_objects_v2.rs","src/ops/list_buckets.rs"],[("directory walk, filter, sort",FS)])
p("C06","Bucket life cycle is consistent across all operations",
 "A bucket exists from a successful CreateBucket until a successful DeleteBucket: HeadBucket, GetBucketLocation and ListBuckets agree on that, creating an existing bucket is refused with 409 and leaves its content alone, and deleting a bucket that contains an object is refused with BucketNotEmpty. Operations that name a bucket that does not exist answer NoSuchBucket (or NoSuchKey for object reads) and never bring the bucket into existence.",
 ["histories","inputs"],"every history of bucket and object operations",
 "Tests delete only an empty bucket and never write to or list a missing one.",
 [FS],[("bucket directory existence checks",FS)])
p("C07","A completed multipart upload is the concatenation of the listed parts",
 "After CompleteMultipartUpload succeeds, the object is the concatenation, in part-number order, of the last successfully uploaded content of exactly the listed parts, with the metadata given at CreateMultipartUpload; uploading a part again replaces it, and the order in which parts arrive does not matter. A completion that lists no parts, a part that was not uploaded, parts out of order, or a part whose ETag is not the current one is refused and leaves object and upload as they were.",
 ["histories","inputs"],"every history of part uploads and completions, every part count, number, size and order",
 "No test performs a multipart upload.",
 [FS,"src/ops/upload_part.rs","src/ops/complete_multipart_upload.rs","src/ops/create_multipart_upload.rs"],
 [("part files named by upload id and number",FS)],[("part file","content of one part","root/.upload_id-<id>.part-<n>")])
p("C08","Multipart uploads are private, isolated and complete at most once",
 "Parts of an unfinished upload are never visible in any object or listing, and no other upload or object operation changes them. An upload id is usable only with the bucket and key it was created for, only if the server issued it, and only until it was completed once; every other use answers NoSuchUpload and has no effect.",
 ["histories","inputs"],"every interleaving of several uploads, every (mis)use of an upload id",
 "No test performs a multipart upload, let alone two, or a forged id.",
 [FS],[("upload id check",FS)])
p("C09","Range reads return exactly the requested bytes",
 "For an object of N bytes, a satisfiable single 'bytes=' range returns 206 with exactly the bytes first..min(last,N-1) (or the last min(n,N) bytes for a suffix), with Content-Length equal to the body and a Content-Range naming those positions and N. A range that starts at or beyond N, or a zero-length suffix, is refused with 416 InvalidRange, a syntactically invalid one is refused with 400, and neither returns object bytes.",
 ["inputs"],"every object size, first, last and suffix, including sizes around the stream buffer",
 "No test sends a Range header through the service; only the parser is tested on seven strings.",
 [FS,"src/headers/range.rs","src/ops/get_object.rs","src/data_structures/bytes_stream.rs"],[("range arithmetic in get_object",FS)])
p("C10","Requests stay inside the bucket and key they name",
 "No request reads, writes, creates, lists or deletes anything outside the storage root, and no object request reads or changes any bucket, object, metadata or upload other than those its bucket, key, copy source or upload id name, whatever those strings contain ('..', '.', empty segments, leading slashes, percent-encodings, NUL). A key that cannot be stored under its own name is refused rather than mapped to another name.",
 ["inputs"],"every key, copy source, upload id and form key built from hostile segments",
 "Tests use only plain keys.",
 [FS,"src/path.rs","src/headers/amz_copy_source.rs"],[("path resolution under the root",FS)])
p("C11","With authentication configured, nothing happens without valid credentials",
 "When an authentication provider is configured, a request of any method, path and query reaches the storage only if it carries a complete, valid AWS Signature V4 (header, presigned URL or POST form) made with the secret key registered for the access key it names; every other request is refused without any effect and without revealing stored data. The server program enforces this whenever it is started with an access key and a secret key.",
 ["inputs","configurations"],"every combination of method, path, query, credential kind and its defects, for every provider",
 "The service tests run without authentication; signature tests call the pure functions on documentation examples.",
 [SV,"src/auth.rs","src/bin/s3-server.rs"],[("check_signature before dispatch",SV)])
p("C12","Any change to a signed component invalidates the signature",
 "Starting from a correctly signed request, changing any component the signature covers (method, path, any query parameter, any signed header or added x-amz-* header, the payload unless it was declared unsigned, the date, region, scope, policy or the signature itself) makes the request be refused with no effect on the store. This holds for header, presigned and POST-form authentication.",
 ["inputs"],"every signed request and every single-component change to it",
 "Tests compute a handful of documented signatures; none presents a modified request to the service.",
 [SV,SIG,"src/headers/authorization_v4.rs"],[("canonical request construction",SIG),("signature comparison",SV)])
p("C13","Every correctly signed request is accepted",
 "A request signed according to AWS Signature V4 for S3 with a registered key is accepted by header authentication and as a presigned URL, whatever its path and query contain (spaces, unicode, '+', '%', '=', '&', empty values, repeated names, parameters in any order), whatever its signed header values look like (leading, trailing or repeated spaces), and for signed, unsigned, empty and chunk-signed payloads.",
 ["inputs"],"every path, query, header set, payload kind, region and date",
 "Only documentation examples with plain paths are checked.",
 [SIG,SV,"src/data_structures/ordered_qs.rs","src/data_structures/ordered_headers.rs"],[("canonical request construction",SIG)])
p("C14","A chunk-signed upload stores exactly the signed chunks or nothing",
 "A STREAMING-AWS4-HMAC-SHA256-PAYLOAD upload succeeds, storing exactly the concatenation of the chunks' data, if and only if every chunk is well formed and correctly signed in the chain that starts at the request signature and the stream ends with the signed zero-length chunk; the outcome does not depend on how the stream is cut into frames. Dropping, reordering, repeating, altering or truncating chunks makes the upload fail and store nothing.",
 ["inputs","fault_sequences"],"every chunk sequence, every manipulation of it and every framing",
 "One documented stream in two framings is decoded; manipulated and truncated streams are not.",
 ["src/streams/aws_chunked_stream.rs",SV,SIG],[("chunk signature chain","src/streams/aws_chunked_stream.rs")])
p("C15","A presigned URL works only within its validity period",
 "A correctly presigned request is accepted before its X-Amz-Date plus X-Amz-Expires seconds and refused, with no effect and without revealing data, after that moment.",
 ["inputs"],"every date, expiry, method and target",
 "No test sends a presigned request to the service.",
 [SV,SIG],[("presigned URL check",SV)])
p("C16","A form POST upload does not depend on how its body is framed",
 "A POST object form whose fields, file part (which names a file) and closing boundary are well formed is decoded to the same key, metadata and file bytes however the body is cut into frames, and for any file content, including content that contains CR, LF, dashes and parts of the boundary. A form without terminating boundary is refused.",
 ["inputs"],"every form, file content and framing",
 "The parser tests use two or three fixed framings of one form.",
 ["src/streams/multipart.rs","src/ops/put_object.rs"],[("incremental form parser and boundary scanner","src/streams/multipart.rs")])
p("C17","Every request gets one well-formed S3 response",
 "For every request that HTTP can carry, the service returns a response and never panics, hangs or drops the request; a refusal carries a 4xx or 5xx status and an S3 error document whose code corresponds to that status, and a success carries a 2xx status and well-formed headers and XML from which the client recovers the exact names stored (names XML cannot carry are recovered with encoding-type=url). After any such request the service keeps serving.",
 ["inputs"],"every method, path, query, header set and body, well formed or not",
 "Tests send well-formed requests only.",
 [SV,"src/ops.rs","src/errors.rs","src/output.rs","src/utils/response.rs","src/utils/xml.rs"],[("error to XML conversion","src/output.rs"),("parsing with error results",SV)])
p("C18","A request performs exactly the operation it asks for, or is refused",
 "Each of the sixteen implemented operations is selected exactly by its method, resource kind, sub-resource query and headers. A request for an S3 operation the server does not implement (ACLs, tagging, policies, versioning, upload-part-copy, abort and list uploads, and so on) is refused and is never carried out as another operation on that bucket or object.",
 ["inputs"],"every combination of method, resource kind, sub-resource parameters and selecting headers",
 "Tests exercise six operations in their plainest form and no unsupported one.",
 ["src/ops.rs",SV,"src/ops/put_object.rs","src/ops/copy_object.rs","src/ops/upload_part.rs","src/ops/delete_bucket.rs"],[("handler is_match list","src/ops.rs")])
p("C19","An ETag is always the quoted MD5 of the content it names",
 "Every ETag returned by PutObject, form POST, UploadPart, CompleteMultipartUpload, CopyObject and GetObject is the quoted lowercase hexadecimal MD5 of the full content that the operation stored or that the object has when read (also on a range read), so equal content always has equal ETags and the ETag seen by a reader matches the bytes it receives.",
 ["inputs","histories"],"every content, size, framing and way of producing the object",
 "No test looks at an ETag.",
 [FS],[("md5 computed while writing or reading",FS)])
p("C20","CopyObject makes an independent, exact copy",
 "CopyObject makes the destination an independent copy of the source's content and metadata (or of the request's metadata with directive REPLACE) and leaves the source unchanged, also across buckets, onto itself, into keys with new parent prefixes and for URL-encoded source names. If the source object or either bucket does not exist it is refused with NoSuchKey or NoSuchBucket and the destination is unchanged.",
 ["inputs","histories"],"every source, destination, metadata directive and history",
 "No test copies an object.",
 [FS,"src/ops/copy_object.rs","src/headers/amz_copy_source.rs"],[("copy_object",FS)])
p("C21","Deletes remove exactly the named objects and can be repeated",
 "DeleteObject and DeleteObjects remove exactly the named objects; a name that does not exist counts as deleted, DeleteObjects reports every requested key exactly as deleted or as an error (only errors in quiet mode), and a deleted key can be created again, also when a former key used it as a prefix directory. No other object is affected.",
 ["histories","inputs"],"every store state and every list of keys, including missing, repeated and nested ones",
 "One test deletes one existing object.",
 [FS,"src/ops/delete_objects.rs","src/ops/delete_object.rs"],[("delete_object/delete_objects",FS)])
p("C22","Concurrent requests behave as if executed one at a time",
 "For every interleaving of concurrent requests the responses and the final state are those of some sequential order of the requests consistent with their real-time order: in particular every read returns the bytes, ETag, length and metadata of one single version of the object, and of two concurrent writers one wins entirely (CopyObject and CompleteMultipartUpload count as reads of their source or parts followed by one write, DeleteObjects as one deletion per key).",
 ["schedules","histories"],"every interleaving of the file-system steps of two or more requests",
 "Tests issue one request at a time.",
 [FS],[("temporary file and rename; serialised commit",FS)])
p("C23","After a crash every object is entirely old or entirely new",
 "If the server process stops at any point while handling requests, then after a restart on the same directory every object has the complete content of some successfully acknowledged or in-flight write (and every acknowledged write not later overwritten is there), with the metadata of that same version, and every unfinished upload has its acknowledged parts; listings show no partial or temporary data and all operations work.",
 ["crash_points"],"a crash at every file-system operation of every write operation",
 "No test stops the server in the middle of a request.",
 [FS],[("temporary file and rename",FS)])
p("C24","Exactly the valid bucket names and keys are accepted",
 "A request path names a bucket only if the name has 3 to 63 characters of lowercase letters, digits, dots and hyphens, starts and ends with a letter or digit, is not formatted as an IP address and does not start with 'xn--'; any other name is refused with InvalidBucketName and never creates anything. Keys of up to 1024 bytes of UTF-8 are accepted as addresses and longer ones are refused with KeyTooLongError, in request paths and form fields; a copy source with a longer key or an invalid bucket name is refused too.",
 ["inputs"],"every name over the relevant character classes and lengths",
 "One valid and one invalid bucket name and one over-long key are tried.",
 ["src/path.rs","src/ops/put_object.rs","src/headers/amz_copy_source.rs"],[("check_bucket_name, check_key","src/path.rs")])
p("C25","A Content-MD5 that does not match the body prevents the write",
 "When PutObject or UploadPart carries a Content-MD5 header, the write succeeds only if the header is the base64 MD5 of the received body; otherwise it is refused with BadDigest or InvalidDigest and the previous object or part is unchanged.",
 ["inputs"],"every body and header value",
 "No test sends Content-MD5.",
 [FS,"src/ops/put_object.rs","src/ops/upload_part.rs"],[("md5 computed while writing",FS)])
p("C26","A POST form upload stays within its signed policy",
 "A form POST upload is accepted only if its policy document has not expired and the bucket, the key, the metadata and other form fields and the file size satisfy every condition of the policy; otherwise it is refused and nothing is stored.",
 ["inputs"],"every policy document and every form",
 "No test posts a form to an authenticated service.",
 [SV,"src/streams/multipart.rs","src/ops/put_object.rs"],[("check_post_signature",SV)])
p("C27","Storage failures are reported and leave the previous state",
 "If the operating system fails any file operation (no space, I/O error) while a request is handled, the request either still succeeds with its full effect or is answered with an error and leaves every object, its metadata and every upload as they were (DeleteObjects: for every key it reports as an error); a success is never reported for data that was not stored, an existing object is never reported as missing, and the next request works normally.",
 ["fault_sequences","histories"],"a failure of every single file-system call of every operation",
 "No test makes a file operation fail.",
 [FS],[("error propagation from every file operation",FS)])
p("C28","Any storage backend receives what the client sent and answers verbatim",
 "For every implementation of the storage interface, each operation is invoked exactly once per accepted request with the bucket, key, body, range, metadata, part number, upload id, part list, prefix, delete list and other fields exactly as the client sent them after decoding; the response carries exactly the backend's output fields, and a backend error becomes the corresponding S3 error response.",
 ["inputs"],"every operation with every subset of its parameters, and every backend output and error",
 "Tests use the file-system backend, which ignores most fields.",
 ["src/ops.rs","src/storage.rs","src/ops/put_object.rs","src/ops/get_object.rs","src/ops/list_objects_v2.rs","src/ops/head_object.rs"],[("extract and S3Output implementations","src/ops/*.rs")])
p("C29","GET, HEAD and listings describe the same object consistently",
 "For an object (a key not ending in '/') that is not being changed, HeadObject, GetObject, ListObjects and ListObjectsV2 agree on whether it exists, on its size, its last-modified instant and its user metadata; a key for which GetObject answers NoSuchKey is answered the same by HeadObject and absent from every listing, and vice versa. A name that is only a prefix of existing keys is not an object.",
 ["histories","inputs"],"every store state and every key, including prefixes of existing keys",
 "Tests never compare two views of the same object.",
 [FS,"src/ops/head_object.rs","src/ops/get_object.rs"],[("file attributes",FS)])
p("C30","No client can hold up another",
 "A request that was received completely and whose response is read is answered as it would be otherwise, within seconds, whatever other clients do meanwhile: clients that send their requests slowly or stop anywhere in them (also with the same bucket, key or upload), that do not read the responses they asked for, or that go away, also when there are a hundred of them. A request that stalled can be continued at any later time and is then answered too.",
 ["schedules","histories"],"every set of stalled requests, every point at which they stall, every other request",
 "Tests send one request after the other, each at once and completely.",
 [FS,SV,"src/bin/s3-server.rs"],[("commit_lock is held only while nothing is received or sent",FS),("temporary files receive the bodies",FS)])
p("C31","Requests leave nothing behind but their effects",
 "When no request is in progress, the files beneath the root of the file system backend occupy the space of the current objects and of the parts of unfinished uploads, up to a few kilobytes and two or three files for each of them, and the server keeps no descriptors open for requests that ended. What was overwritten or deleted, the parts of completed uploads, and whatever a request wrote that was refused, broke off, or was abandoned by its client at any moment, is gone. (Crashes of the server and failing file operations are not meant.)",
 ["histories","schedules"],"every history of requests, every point at which a client may go away",
 "Tests look at responses, not at what is left in the directory, and abandon no requests.",
 [FS],[("TempFile::drop removes what was not committed",FS),("remove_parts after a completion",FS),("save_metadata(None) removes the metadata of a deleted object",FS)])
p("C32","Memory does not grow with the size of objects",
 "What the server holds in memory for a request does not grow with the size of the object that is uploaded or downloaded: uploads with PUT, with and without Content-Length, of parts, with a form, with signed chunks or a presigned URL, downloads, also of ranges, copies and completions pass the content on in small pieces, and a client that does not read its response, or stops sending, makes the server collect no more than a few megabytes for its request. (Not meant: bodies that are XML documents, a payload that is signed as a whole in the Authorization header, the signed chunk that is being received.)",
 ["inputs","schedules"],"every size of object, every pace at which clients send and read",
 "Tests use objects of a few bytes.",
 [FS,"src/data_structures/bytes_stream.rs","src/streams/multipart.rs"],[("BytesStream reads 4 KiB at a time","src/data_structures/bytes_stream.rs"),("copy_bytes writes what the body stream yields",FS),("get_file_md5_sum hashes through a fixed buffer",FS)])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
import re
for d in P:
    n=len(re.findall(r'[.:;]? ?\.(?=\s|$)',d['statement']))
    if n>3: print(d['id'],n)
