#!/usr/bin/env python3
"""Writes spec/ApiTables.tla: where the Amazon S3 API puts the fields of requests and responses.

The tables follow the S3 API reference. The operations are the ones this server has.
  h    fields of a request that headers carry: field, type (s text, b boolean, i number), header
  q    fields of a request that the query carries
  out  fields of a response that headers carry
"""
import os

TABLES = {
    "CompleteMultipartUpload": {
        "h": """expected_bucket_owner s x-amz-expected-bucket-owner
        request_payer s x-amz-request-payer""",
        "q": """upload_id s uploadId""",
        "out": """bucket_key_enabled b x-amz-server-side-encryption-bucket-key-enabled
        expiration s x-amz-expiration
        request_charged s x-amz-request-charged
        ssekms_key_id s x-amz-server-side-encryption-aws-kms-key-id
        server_side_encryption s x-amz-server-side-encryption
        version_id s x-amz-version-id"""},
    "CopyObject": {
        "h": """acl s x-amz-acl
        bucket_key_enabled b x-amz-server-side-encryption-bucket-key-enabled
        cache_control s cache-control
        content_disposition s content-disposition
        content_encoding s content-encoding
        content_language s content-language
        content_type s content-type
        copy_source s x-amz-copy-source
        copy_source_if_match s x-amz-copy-source-if-match
        copy_source_if_modified_since s x-amz-copy-source-if-modified-since
        copy_source_if_none_match s x-amz-copy-source-if-none-match
        copy_source_if_unmodified_since s x-amz-copy-source-if-unmodified-since
        copy_source_sse_customer_algorithm s x-amz-copy-source-server-side-encryption-customer-algorithm
        copy_source_sse_customer_key s x-amz-copy-source-server-side-encryption-customer-key
        copy_source_sse_customer_key_md5 s x-amz-copy-source-server-side-encryption-customer-key-md5
        expected_bucket_owner s x-amz-expected-bucket-owner
        expected_source_bucket_owner s x-amz-source-expected-bucket-owner
        expires s expires
        grant_full_control s x-amz-grant-full-control
        grant_read s x-amz-grant-read
        grant_read_acp s x-amz-grant-read-acp
        grant_write_acp s x-amz-grant-write-acp
        metadata_directive s x-amz-metadata-directive
        object_lock_legal_hold_status s x-amz-object-lock-legal-hold
        object_lock_mode s x-amz-object-lock-mode
        object_lock_retain_until_date s x-amz-object-lock-retain-until-date
        request_payer s x-amz-request-payer
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key s x-amz-server-side-encryption-customer-key
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5
        ssekms_encryption_context s x-amz-server-side-encryption-context
        ssekms_key_id s x-amz-server-side-encryption-aws-kms-key-id
        server_side_encryption s x-amz-server-side-encryption
        storage_class s x-amz-storage-class
        tagging s x-amz-tagging
        tagging_directive s x-amz-tagging-directive
        website_redirect_location s x-amz-website-redirect-location""",
        "q": """""",
        "out": """bucket_key_enabled b x-amz-server-side-encryption-bucket-key-enabled
        copy_source_version_id s x-amz-copy-source-version-id
        expiration s x-amz-expiration
        request_charged s x-amz-request-charged
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5
        ssekms_encryption_context s x-amz-server-side-encryption-context
        ssekms_key_id s x-amz-server-side-encryption-aws-kms-key-id
        server_side_encryption s x-amz-server-side-encryption
        version_id s x-amz-version-id"""},
    "CreateBucket": {
        "h": """acl s x-amz-acl
        grant_full_control s x-amz-grant-full-control
        grant_read s x-amz-grant-read
        grant_read_acp s x-amz-grant-read-acp
        grant_write s x-amz-grant-write
        grant_write_acp s x-amz-grant-write-acp
        object_lock_enabled_for_bucket b x-amz-bucket-object-lock-enabled""",
        "q": """""",
        "out": """location s location"""},
    "CreateMultipartUpload": {
        "h": """acl s x-amz-acl
        bucket_key_enabled b x-amz-server-side-encryption-bucket-key-enabled
        cache_control s cache-control
        content_disposition s content-disposition
        content_encoding s content-encoding
        content_language s content-language
        content_type s content-type
        expected_bucket_owner s x-amz-expected-bucket-owner
        expires s expires
        grant_full_control s x-amz-grant-full-control
        grant_read s x-amz-grant-read
        grant_read_acp s x-amz-grant-read-acp
        grant_write_acp s x-amz-grant-write-acp
        object_lock_legal_hold_status s x-amz-object-lock-legal-hold
        object_lock_mode s x-amz-object-lock-mode
        object_lock_retain_until_date s x-amz-object-lock-retain-until-date
        request_payer s x-amz-request-payer
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key s x-amz-server-side-encryption-customer-key
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5
        ssekms_encryption_context s x-amz-server-side-encryption-context
        ssekms_key_id s x-amz-server-side-encryption-aws-kms-key-id
        server_side_encryption s x-amz-server-side-encryption
        storage_class s x-amz-storage-class
        tagging s x-amz-tagging
        website_redirect_location s x-amz-website-redirect-location""",
        "q": """""",
        "out": """abort_date s x-amz-abort-date
        abort_rule_id s x-amz-abort-rule-id
        bucket_key_enabled b x-amz-server-side-encryption-bucket-key-enabled
        request_charged s x-amz-request-charged
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5
        ssekms_encryption_context s x-amz-server-side-encryption-context
        ssekms_key_id s x-amz-server-side-encryption-aws-kms-key-id
        server_side_encryption s x-amz-server-side-encryption"""},
    "DeleteBucket": {
        "h": """expected_bucket_owner s x-amz-expected-bucket-owner""",
        "q": """""",
        "out": """"""},
    "DeleteObject": {
        "h": """bypass_governance_retention b x-amz-bypass-governance-retention
        expected_bucket_owner s x-amz-expected-bucket-owner
        mfa s x-amz-mfa
        request_payer s x-amz-request-payer""",
        "q": """version_id s versionId""",
        "out": """delete_marker b x-amz-delete-marker
        request_charged s x-amz-request-charged
        version_id s x-amz-version-id"""},
    "DeleteObjects": {
        "h": """bypass_governance_retention b x-amz-bypass-governance-retention
        expected_bucket_owner s x-amz-expected-bucket-owner
        mfa s x-amz-mfa
        request_payer s x-amz-request-payer""",
        "q": """""",
        "out": """request_charged s x-amz-request-charged"""},
    "GetBucketLocation": {
        "h": """expected_bucket_owner s x-amz-expected-bucket-owner""",
        "q": """""",
        "out": """"""},
    "GetObject": {
        "h": """expected_bucket_owner s x-amz-expected-bucket-owner
        if_match s if-match
        if_modified_since s if-modified-since
        if_none_match s if-none-match
        if_unmodified_since s if-unmodified-since
        range s range
        request_payer s x-amz-request-payer
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key s x-amz-server-side-encryption-customer-key
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5""",
        "q": """part_number i partNumber
        response_cache_control s response-cache-control
        response_content_disposition s response-content-disposition
        response_content_encoding s response-content-encoding
        response_content_language s response-content-language
        response_content_type s response-content-type
        response_expires s response-expires
        version_id s versionId""",
        "out": """accept_ranges s accept-ranges
        bucket_key_enabled b x-amz-server-side-encryption-bucket-key-enabled
        cache_control s cache-control
        content_disposition s content-disposition
        content_encoding s content-encoding
        content_language s content-language
        content_length i content-length
        content_range s content-range
        content_type s content-type
        delete_marker b x-amz-delete-marker
        e_tag s etag
        expiration s x-amz-expiration
        expires s expires
        last_modified s last-modified
        missing_meta i x-amz-missing-meta
        object_lock_mode s x-amz-object-lock-mode
        object_lock_retain_until_date s x-amz-object-lock-retain-until-date
        parts_count i x-amz-mp-parts-count
        replication_status s x-amz-replication-status
        request_charged s x-amz-request-charged
        restore s x-amz-restore
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5
        ssekms_key_id s x-amz-server-side-encryption-aws-kms-key-id
        server_side_encryption s x-amz-server-side-encryption
        storage_class s x-amz-storage-class
        tag_count i x-amz-tagging-count
        version_id s x-amz-version-id
        website_redirect_location s x-amz-website-redirect-location
        object_lock_legal_hold_status s x-amz-object-lock-legal-hold"""},
    "HeadBucket": {
        "h": """expected_bucket_owner s x-amz-expected-bucket-owner""",
        "q": """""",
        "out": """"""},
    "HeadObject": {
        "h": """expected_bucket_owner s x-amz-expected-bucket-owner
        if_match s if-match
        if_modified_since s if-modified-since
        if_none_match s if-none-match
        if_unmodified_since s if-unmodified-since
        range s range
        request_payer s x-amz-request-payer
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key s x-amz-server-side-encryption-customer-key
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5""",
        "q": """part_number i partNumber
        version_id s versionId""",
        "out": """accept_ranges s accept-ranges
        archive_status s x-amz-archive-status
        bucket_key_enabled b x-amz-server-side-encryption-bucket-key-enabled
        cache_control s cache-control
        content_disposition s content-disposition
        content_encoding s content-encoding
        content_language s content-language
        content_length i content-length
        content_type s content-type
        delete_marker b x-amz-delete-marker
        e_tag s etag
        expiration s x-amz-expiration
        expires s expires
        last_modified s last-modified
        missing_meta i x-amz-missing-meta
        object_lock_mode s x-amz-object-lock-mode
        object_lock_retain_until_date s x-amz-object-lock-retain-until-date
        parts_count i x-amz-mp-parts-count
        replication_status s x-amz-replication-status
        request_charged s x-amz-request-charged
        restore s x-amz-restore
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5
        ssekms_key_id s x-amz-server-side-encryption-aws-kms-key-id
        server_side_encryption s x-amz-server-side-encryption
        storage_class s x-amz-storage-class
        version_id s x-amz-version-id
        website_redirect_location s x-amz-website-redirect-location
        object_lock_legal_hold_status s x-amz-object-lock-legal-hold"""},
    "ListBuckets": {
        "h": """""",
        "q": """""",
        "out": """"""},
    "ListObjects": {
        "h": """expected_bucket_owner s x-amz-expected-bucket-owner
        request_payer s x-amz-request-payer""",
        "q": """delimiter s delimiter
        encoding_type s encoding-type
        marker s marker
        max_keys i max-keys
        prefix s prefix""",
        "out": """"""},
    "ListObjectsV2": {
        "h": """expected_bucket_owner s x-amz-expected-bucket-owner
        request_payer s x-amz-request-payer""",
        "q": """continuation_token s continuation-token
        delimiter s delimiter
        encoding_type s encoding-type
        fetch_owner b fetch-owner
        max_keys i max-keys
        prefix s prefix
        start_after s start-after""",
        "out": """"""},
    "PutObject": {
        "h": """acl s x-amz-acl
        bucket_key_enabled b x-amz-server-side-encryption-bucket-key-enabled
        cache_control s cache-control
        content_disposition s content-disposition
        content_encoding s content-encoding
        content_language s content-language
        content_length i content-length
        content_md5 s content-md5
        content_type s content-type
        expected_bucket_owner s x-amz-expected-bucket-owner
        expires s expires
        grant_full_control s x-amz-grant-full-control
        grant_read s x-amz-grant-read
        grant_read_acp s x-amz-grant-read-acp
        grant_write_acp s x-amz-grant-write-acp
        object_lock_legal_hold_status s x-amz-object-lock-legal-hold
        object_lock_mode s x-amz-object-lock-mode
        object_lock_retain_until_date s x-amz-object-lock-retain-until-date
        request_payer s x-amz-request-payer
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key s x-amz-server-side-encryption-customer-key
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5
        ssekms_encryption_context s x-amz-server-side-encryption-context
        ssekms_key_id s x-amz-server-side-encryption-aws-kms-key-id
        server_side_encryption s x-amz-server-side-encryption
        storage_class s x-amz-storage-class
        tagging s x-amz-tagging
        website_redirect_location s x-amz-website-redirect-location""",
        "q": """""",
        "out": """bucket_key_enabled b x-amz-server-side-encryption-bucket-key-enabled
        e_tag s etag
        expiration s x-amz-expiration
        request_charged s x-amz-request-charged
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5
        ssekms_encryption_context s x-amz-server-side-encryption-context
        ssekms_key_id s x-amz-server-side-encryption-aws-kms-key-id
        server_side_encryption s x-amz-server-side-encryption
        version_id s x-amz-version-id"""},
    "UploadPart": {
        "h": """content_length i content-length
        content_md5 s content-md5
        expected_bucket_owner s x-amz-expected-bucket-owner
        request_payer s x-amz-request-payer
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key s x-amz-server-side-encryption-customer-key
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5""",
        "q": """part_number i partNumber
        upload_id s uploadId""",
        "out": """bucket_key_enabled b x-amz-server-side-encryption-bucket-key-enabled
        e_tag s etag
        request_charged s x-amz-request-charged
        sse_customer_algorithm s x-amz-server-side-encryption-customer-algorithm
        sse_customer_key_md5 s x-amz-server-side-encryption-customer-key-md5
        ssekms_key_id s x-amz-server-side-encryption-aws-kms-key-id
        server_side_encryption s x-amz-server-side-encryption"""},

}
# the fields of a response that its XML document carries: document, and (field, element)
XML = {
    "CompleteMultipartUpload": ("CompleteMultipartUploadResult", "location=Location bucket=Bucket key=Key e_tag=ETag"),
    "CopyObject": ("CopyObjectResult", "copy_object_result.e_tag=ETag copy_object_result.last_modified=LastModified"),
    "CreateMultipartUpload": ("InitiateMultipartUploadResult", "bucket=Bucket key=Key upload_id=UploadId"),
    "DeleteObjects": ("DeleteResult", ""),
    "GetBucketLocation": ("LocationConstraint", "location_constraint="),
    "ListBuckets": ("ListAllMyBucketsResult", "owner.id=Owner.ID owner.display_name=Owner.DisplayName"),
    "ListObjects": ("ListBucketResult", "is_truncated=IsTruncated marker=Marker next_marker=NextMarker name=Name prefix=Prefix delimiter=Delimiter max_keys=MaxKeys encoding_type=EncodingType"),
    "ListObjectsV2": ("ListBucketResult", "is_truncated=IsTruncated name=Name prefix=Prefix delimiter=Delimiter max_keys=MaxKeys encoding_type=EncodingType key_count=KeyCount continuation_token=ContinuationToken next_continuation_token=NextContinuationToken start_after=StartAfter"),
}
# lists in these documents: list, element, and (field, element below it)
_CONTENTS = ("contents", "Contents", "key=Key last_modified=LastModified e_tag=ETag size=Size storage_class=StorageClass owner.id=Owner.ID owner.display_name=Owner.DisplayName")
_PREFIXES = ("common_prefixes", "CommonPrefixes", "prefix=Prefix")
LISTS = {
    "DeleteObjects": [("deleted", "Deleted", "key=Key version_id=VersionId delete_marker=DeleteMarker delete_marker_version_id=DeleteMarkerVersionId"),
                      ("errors", "Error", "key=Key version_id=VersionId code=Code message=Message")],
    "ListBuckets": [("buckets", "Buckets.Bucket", "name=Name creation_date=CreationDate")],
    "ListObjects": [_CONTENTS, _PREFIXES],
    "ListObjectsV2": [_CONTENTS, _PREFIXES],
}
# fields of a POST form, besides x-amz-meta-*
FORM = """acl acl
cache_control cache-control
content_disposition content-disposition
content_encoding content-encoding
content_type content-type
expires expires
tagging tagging
storage_class x-amz-storage-class
website_redirect_location x-amz-website-redirect-location
server_side_encryption x-amz-server-side-encryption
ssekms_key_id x-amz-server-side-encryption-aws-kms-key-id
ssekms_encryption_context x-amz-server-side-encryption-context
sse_customer_algorithm x-amz-server-side-encryption-customer-algorithm
sse_customer_key x-amz-server-side-encryption-customer-key
sse_customer_key_md5 x-amz-server-side-encryption-customer-key-md5"""
# the status of the error codes
STATUS = {
    301: "PermanentRedirect", 307: "Redirect TemporaryRedirect",
    400: """AmbiguousGrantByEmailAddress AuthorizationHeaderMalformed BadDigest CredentialsNotSupported EntityTooSmall EntityTooLarge ExpiredToken
        IllegalLocationConstraintException IllegalVersioningConfigurationException IncompleteBody IncorrectNumberOfFilesInPostRequest
        InlineDataTooLarge InvalidArgument InvalidBucketName InvalidDigest InvalidEncryptionAlgorithmError InvalidLocationConstraint InvalidPart
        InvalidPartOrder InvalidPolicyDocument InvalidRequest InvalidSOAPRequest InvalidStorageClass InvalidTargetBucketForLogging InvalidToken
        InvalidURI KeyTooLongError MalformedACLError MalformedPOSTRequest MalformedXML MaxMessageLengthExceeded
        MaxPostPreDataLengthExceededError MetadataTooLarge MissingRequestBodyError MissingSecurityElement MissingSecurityHeader
        NoLoggingStatusForKey RequestIsNotMultiPartContent RequestTimeout RequestTorrentOfBucketError
        ServerSideEncryptionConfigurationNotFoundError TokenRefreshRequired TooManyBuckets UnexpectedContent
        UnresolvableGrantByEmailAddress UserKeyMustBeSpecified XAmzContentSHA256Mismatch""",
    403: """AccessDenied AccountProblem AllAccessDisabled CrossLocationLoggingProhibited InvalidAccessKeyId InvalidObjectState InvalidPayer
        InvalidSecurity NotSignedUp ObjectNotInActiveTierError RequestTimeTooSkewed SignatureDoesNotMatch""",
    404: "NoSuchBucket NoSuchBucketPolicy NoSuchKey NoSuchLifecycleConfiguration NoSuchUpload NoSuchVersion",
    405: "MethodNotAllowed",
    409: "BucketAlreadyExists BucketAlreadyOwnedByYou BucketNotEmpty InvalidBucketState OperationAborted RestoreAlreadyInProgress",
    411: "MissingContentLength", 412: "PreconditionFailed", 416: "InvalidRange", 500: "InternalError", 501: "NotImplemented",
    503: "ServiceUnavailable SlowDown",
}
# codes without a status of their own: any refusal
FREE = "NotSupported InvalidAddressingHeader MissingAttachment"

BUCKET_SUBS = """accelerate acl analytics cors delete encryption intelligent-tiering inventory lifecycle location logging metrics notification
    object-lock ownershipControls policy policyStatus publicAccessBlock replication requestPayment tagging uploads versioning versions website"""
OBJECT_SUBS = "acl attributes legal-hold restore retention select tagging torrent uploadId uploads"
PLAIN = "list-type partNumber"


def rows(s):
    return [x.split() for x in s.strip().split("\n") if x.strip()]


def pairs(s):
    return [x.split("=") for x in s.split()]


def queries():
    q = set((BUCKET_SUBS + " " + OBJECT_SUBS + " " + PLAIN).split())
    for t in TABLES.values():
        q |= {r[2] for r in rows(t["q"])}
    return sorted(q)


def tup(x):
    return "<<" + ", ".join('"%s"' % y for y in x) + ">>"


def main():
    out = ["------------------------------ MODULE ApiTables ------------------------------",
           "(* Written by tools/gen_api.py: where the S3 API puts the fields of requests and *)",
           "(* responses, its sub-resources and its error codes.                            *)"]
    for name, k in (("InHeaders", "h"), ("InQuery", "q"), ("OutHeaders", "out")):
        out.append("%s == [" % name)
        out.append(",\n".join("  %s |-> {%s}" % (op, ",\n    ".join(tup(r) for r in rows(t[k]))) for op, t in TABLES.items()))
        out.append("]")
    out.append("OutXml == [")
    out.append(",\n".join("  %s |-> {%s}" % (op, ", ".join(tup(p) for p in pairs(XML[op][1])) if op in XML else "") for op in TABLES))
    out.append("]")
    out.append("Document == [")
    out.append(",\n".join('  %s |-> "%s"' % (op, XML[op][0] if op in XML else "") for op in TABLES))
    out.append("]")
    out.append("OutLists == [")
    out.append(",\n".join("  %s |-> {%s}" % (op, ", ".join('<<"%s", "%s", {%s}>>' % (l, e, ", ".join(tup(p) for p in pairs(f))) for l, e, f in LISTS.get(op, []))) for op in TABLES))
    out.append("]")
    out.append("FormFields == {%s}" % ",\n  ".join(tup(r) for r in rows(FORM)))
    out.append("StatusOf == {%s}" % ",\n  ".join('<<"%s", %d>>' % (c, s) for s, cs in STATUS.items() for c in cs.split()))
    out.append("AnyStatus == {%s}" % ", ".join('"%s"' % c for c in FREE.split()))
    out.append("BucketSubs == {%s}" % ", ".join('"%s"' % c for c in BUCKET_SUBS.split()))
    out.append("ObjectSubs == {%s}" % ", ".join('"%s"' % c for c in OBJECT_SUBS.split()))
    out.append("\\* the names of queries, as text and as bytes")
    out.append("QueryNames == {%s}" % ",\n  ".join('<<"%s", <<%s>>>>' % (q, ", ".join(str(x) for x in q.encode())) for q in queries()))
    out.append("=" * 77)
    open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "ApiTables.tla"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
