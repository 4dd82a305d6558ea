------------------------------ MODULE ApiTables ------------------------------
(* Written by tools/gen_api.py: where the S3 API puts the fields of requests and *)
(* responses, its sub-resources and its error codes.                            *)
InHeaders == [
  CompleteMultipartUpload |-> {<<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"request_payer", "s", "x-amz-request-payer">>},
  CopyObject |-> {<<"acl", "s", "x-amz-acl">>,
    <<"bucket_key_enabled", "b", "x-amz-server-side-encryption-bucket-key-enabled">>,
    <<"cache_control", "s", "cache-control">>,
    <<"content_disposition", "s", "content-disposition">>,
    <<"content_encoding", "s", "content-encoding">>,
    <<"content_language", "s", "content-language">>,
    <<"content_type", "s", "content-type">>,
    <<"copy_source", "s", "x-amz-copy-source">>,
    <<"copy_source_if_match", "s", "x-amz-copy-source-if-match">>,
    <<"copy_source_if_modified_since", "s", "x-amz-copy-source-if-modified-since">>,
    <<"copy_source_if_none_match", "s", "x-amz-copy-source-if-none-match">>,
    <<"copy_source_if_unmodified_since", "s", "x-amz-copy-source-if-unmodified-since">>,
    <<"copy_source_sse_customer_algorithm", "s", "x-amz-copy-source-server-side-encryption-customer-algorithm">>,
    <<"copy_source_sse_customer_key", "s", "x-amz-copy-source-server-side-encryption-customer-key">>,
    <<"copy_source_sse_customer_key_md5", "s", "x-amz-copy-source-server-side-encryption-customer-key-md5">>,
    <<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"expected_source_bucket_owner", "s", "x-amz-source-expected-bucket-owner">>,
    <<"expires", "s", "expires">>,
    <<"grant_full_control", "s", "x-amz-grant-full-control">>,
    <<"grant_read", "s", "x-amz-grant-read">>,
    <<"grant_read_acp", "s", "x-amz-grant-read-acp">>,
    <<"grant_write_acp", "s", "x-amz-grant-write-acp">>,
    <<"metadata_directive", "s", "x-amz-metadata-directive">>,
    <<"object_lock_legal_hold_status", "s", "x-amz-object-lock-legal-hold">>,
    <<"object_lock_mode", "s", "x-amz-object-lock-mode">>,
    <<"object_lock_retain_until_date", "s", "x-amz-object-lock-retain-until-date">>,
    <<"request_payer", "s", "x-amz-request-payer">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key", "s", "x-amz-server-side-encryption-customer-key">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>,
    <<"ssekms_encryption_context", "s", "x-amz-server-side-encryption-context">>,
    <<"ssekms_key_id", "s", "x-amz-server-side-encryption-aws-kms-key-id">>,
    <<"server_side_encryption", "s", "x-amz-server-side-encryption">>,
    <<"storage_class", "s", "x-amz-storage-class">>,
    <<"tagging", "s", "x-amz-tagging">>,
    <<"tagging_directive", "s", "x-amz-tagging-directive">>,
    <<"website_redirect_location", "s", "x-amz-website-redirect-location">>},
  CreateBucket |-> {<<"acl", "s", "x-amz-acl">>,
    <<"grant_full_control", "s", "x-amz-grant-full-control">>,
    <<"grant_read", "s", "x-amz-grant-read">>,
    <<"grant_read_acp", "s", "x-amz-grant-read-acp">>,
    <<"grant_write", "s", "x-amz-grant-write">>,
    <<"grant_write_acp", "s", "x-amz-grant-write-acp">>,
    <<"object_lock_enabled_for_bucket", "b", "x-amz-bucket-object-lock-enabled">>},
  CreateMultipartUpload |-> {<<"acl", "s", "x-amz-acl">>,
    <<"bucket_key_enabled", "b", "x-amz-server-side-encryption-bucket-key-enabled">>,
    <<"cache_control", "s", "cache-control">>,
    <<"content_disposition", "s", "content-disposition">>,
    <<"content_encoding", "s", "content-encoding">>,
    <<"content_language", "s", "content-language">>,
    <<"content_type", "s", "content-type">>,
    <<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"expires", "s", "expires">>,
    <<"grant_full_control", "s", "x-amz-grant-full-control">>,
    <<"grant_read", "s", "x-amz-grant-read">>,
    <<"grant_read_acp", "s", "x-amz-grant-read-acp">>,
    <<"grant_write_acp", "s", "x-amz-grant-write-acp">>,
    <<"object_lock_legal_hold_status", "s", "x-amz-object-lock-legal-hold">>,
    <<"object_lock_mode", "s", "x-amz-object-lock-mode">>,
    <<"object_lock_retain_until_date", "s", "x-amz-object-lock-retain-until-date">>,
    <<"request_payer", "s", "x-amz-request-payer">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key", "s", "x-amz-server-side-encryption-customer-key">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>,
    <<"ssekms_encryption_context", "s", "x-amz-server-side-encryption-context">>,
    <<"ssekms_key_id", "s", "x-amz-server-side-encryption-aws-kms-key-id">>,
    <<"server_side_encryption", "s", "x-amz-server-side-encryption">>,
    <<"storage_class", "s", "x-amz-storage-class">>,
    <<"tagging", "s", "x-amz-tagging">>,
    <<"website_redirect_location", "s", "x-amz-website-redirect-location">>},
  DeleteBucket |-> {<<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>},
  DeleteObject |-> {<<"bypass_governance_retention", "b", "x-amz-bypass-governance-retention">>,
    <<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"mfa", "s", "x-amz-mfa">>,
    <<"request_payer", "s", "x-amz-request-payer">>},
  DeleteObjects |-> {<<"bypass_governance_retention", "b", "x-amz-bypass-governance-retention">>,
    <<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"mfa", "s", "x-amz-mfa">>,
    <<"request_payer", "s", "x-amz-request-payer">>},
  GetBucketLocation |-> {<<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>},
  GetObject |-> {<<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"if_match", "s", "if-match">>,
    <<"if_modified_since", "s", "if-modified-since">>,
    <<"if_none_match", "s", "if-none-match">>,
    <<"if_unmodified_since", "s", "if-unmodified-since">>,
    <<"range", "s", "range">>,
    <<"request_payer", "s", "x-amz-request-payer">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key", "s", "x-amz-server-side-encryption-customer-key">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>},
  HeadBucket |-> {<<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>},
  HeadObject |-> {<<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"if_match", "s", "if-match">>,
    <<"if_modified_since", "s", "if-modified-since">>,
    <<"if_none_match", "s", "if-none-match">>,
    <<"if_unmodified_since", "s", "if-unmodified-since">>,
    <<"range", "s", "range">>,
    <<"request_payer", "s", "x-amz-request-payer">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key", "s", "x-amz-server-side-encryption-customer-key">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>},
  ListBuckets |-> {},
  ListObjects |-> {<<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"request_payer", "s", "x-amz-request-payer">>},
  ListObjectsV2 |-> {<<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"request_payer", "s", "x-amz-request-payer">>},
  PutObject |-> {<<"acl", "s", "x-amz-acl">>,
    <<"bucket_key_enabled", "b", "x-amz-server-side-encryption-bucket-key-enabled">>,
    <<"cache_control", "s", "cache-control">>,
    <<"content_disposition", "s", "content-disposition">>,
    <<"content_encoding", "s", "content-encoding">>,
    <<"content_language", "s", "content-language">>,
    <<"content_length", "i", "content-length">>,
    <<"content_md5", "s", "content-md5">>,
    <<"content_type", "s", "content-type">>,
    <<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"expires", "s", "expires">>,
    <<"grant_full_control", "s", "x-amz-grant-full-control">>,
    <<"grant_read", "s", "x-amz-grant-read">>,
    <<"grant_read_acp", "s", "x-amz-grant-read-acp">>,
    <<"grant_write_acp", "s", "x-amz-grant-write-acp">>,
    <<"object_lock_legal_hold_status", "s", "x-amz-object-lock-legal-hold">>,
    <<"object_lock_mode", "s", "x-amz-object-lock-mode">>,
    <<"object_lock_retain_until_date", "s", "x-amz-object-lock-retain-until-date">>,
    <<"request_payer", "s", "x-amz-request-payer">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key", "s", "x-amz-server-side-encryption-customer-key">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>,
    <<"ssekms_encryption_context", "s", "x-amz-server-side-encryption-context">>,
    <<"ssekms_key_id", "s", "x-amz-server-side-encryption-aws-kms-key-id">>,
    <<"server_side_encryption", "s", "x-amz-server-side-encryption">>,
    <<"storage_class", "s", "x-amz-storage-class">>,
    <<"tagging", "s", "x-amz-tagging">>,
    <<"website_redirect_location", "s", "x-amz-website-redirect-location">>},
  UploadPart |-> {<<"content_length", "i", "content-length">>,
    <<"content_md5", "s", "content-md5">>,
    <<"expected_bucket_owner", "s", "x-amz-expected-bucket-owner">>,
    <<"request_payer", "s", "x-amz-request-payer">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key", "s", "x-amz-server-side-encryption-customer-key">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>}
]
InQuery == [
  CompleteMultipartUpload |-> {<<"upload_id", "s", "uploadId">>},
  CopyObject |-> {},
  CreateBucket |-> {},
  CreateMultipartUpload |-> {},
  DeleteBucket |-> {},
  DeleteObject |-> {<<"version_id", "s", "versionId">>},
  DeleteObjects |-> {},
  GetBucketLocation |-> {},
  GetObject |-> {<<"part_number", "i", "partNumber">>,
    <<"response_cache_control", "s", "response-cache-control">>,
    <<"response_content_disposition", "s", "response-content-disposition">>,
    <<"response_content_encoding", "s", "response-content-encoding">>,
    <<"response_content_language", "s", "response-content-language">>,
    <<"response_content_type", "s", "response-content-type">>,
    <<"response_expires", "s", "response-expires">>,
    <<"version_id", "s", "versionId">>},
  HeadBucket |-> {},
  HeadObject |-> {<<"part_number", "i", "partNumber">>,
    <<"version_id", "s", "versionId">>},
  ListBuckets |-> {},
  ListObjects |-> {<<"delimiter", "s", "delimiter">>,
    <<"encoding_type", "s", "encoding-type">>,
    <<"marker", "s", "marker">>,
    <<"max_keys", "i", "max-keys">>,
    <<"prefix", "s", "prefix">>},
  ListObjectsV2 |-> {<<"continuation_token", "s", "continuation-token">>,
    <<"delimiter", "s", "delimiter">>,
    <<"encoding_type", "s", "encoding-type">>,
    <<"fetch_owner", "b", "fetch-owner">>,
    <<"max_keys", "i", "max-keys">>,
    <<"prefix", "s", "prefix">>,
    <<"start_after", "s", "start-after">>},
  PutObject |-> {},
  UploadPart |-> {<<"part_number", "i", "partNumber">>,
    <<"upload_id", "s", "uploadId">>}
]
OutHeaders == [
  CompleteMultipartUpload |-> {<<"bucket_key_enabled", "b", "x-amz-server-side-encryption-bucket-key-enabled">>,
    <<"expiration", "s", "x-amz-expiration">>,
    <<"request_charged", "s", "x-amz-request-charged">>,
    <<"ssekms_key_id", "s", "x-amz-server-side-encryption-aws-kms-key-id">>,
    <<"server_side_encryption", "s", "x-amz-server-side-encryption">>,
    <<"version_id", "s", "x-amz-version-id">>},
  CopyObject |-> {<<"bucket_key_enabled", "b", "x-amz-server-side-encryption-bucket-key-enabled">>,
    <<"copy_source_version_id", "s", "x-amz-copy-source-version-id">>,
    <<"expiration", "s", "x-amz-expiration">>,
    <<"request_charged", "s", "x-amz-request-charged">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>,
    <<"ssekms_encryption_context", "s", "x-amz-server-side-encryption-context">>,
    <<"ssekms_key_id", "s", "x-amz-server-side-encryption-aws-kms-key-id">>,
    <<"server_side_encryption", "s", "x-amz-server-side-encryption">>,
    <<"version_id", "s", "x-amz-version-id">>},
  CreateBucket |-> {<<"location", "s", "location">>},
  CreateMultipartUpload |-> {<<"abort_date", "s", "x-amz-abort-date">>,
    <<"abort_rule_id", "s", "x-amz-abort-rule-id">>,
    <<"bucket_key_enabled", "b", "x-amz-server-side-encryption-bucket-key-enabled">>,
    <<"request_charged", "s", "x-amz-request-charged">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>,
    <<"ssekms_encryption_context", "s", "x-amz-server-side-encryption-context">>,
    <<"ssekms_key_id", "s", "x-amz-server-side-encryption-aws-kms-key-id">>,
    <<"server_side_encryption", "s", "x-amz-server-side-encryption">>},
  DeleteBucket |-> {},
  DeleteObject |-> {<<"delete_marker", "b", "x-amz-delete-marker">>,
    <<"request_charged", "s", "x-amz-request-charged">>,
    <<"version_id", "s", "x-amz-version-id">>},
  DeleteObjects |-> {<<"request_charged", "s", "x-amz-request-charged">>},
  GetBucketLocation |-> {},
  GetObject |-> {<<"accept_ranges", "s", "accept-ranges">>,
    <<"bucket_key_enabled", "b", "x-amz-server-side-encryption-bucket-key-enabled">>,
    <<"cache_control", "s", "cache-control">>,
    <<"content_disposition", "s", "content-disposition">>,
    <<"content_encoding", "s", "content-encoding">>,
    <<"content_language", "s", "content-language">>,
    <<"content_length", "i", "content-length">>,
    <<"content_range", "s", "content-range">>,
    <<"content_type", "s", "content-type">>,
    <<"delete_marker", "b", "x-amz-delete-marker">>,
    <<"e_tag", "s", "etag">>,
    <<"expiration", "s", "x-amz-expiration">>,
    <<"expires", "s", "expires">>,
    <<"last_modified", "s", "last-modified">>,
    <<"missing_meta", "i", "x-amz-missing-meta">>,
    <<"object_lock_mode", "s", "x-amz-object-lock-mode">>,
    <<"object_lock_retain_until_date", "s", "x-amz-object-lock-retain-until-date">>,
    <<"parts_count", "i", "x-amz-mp-parts-count">>,
    <<"replication_status", "s", "x-amz-replication-status">>,
    <<"request_charged", "s", "x-amz-request-charged">>,
    <<"restore", "s", "x-amz-restore">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>,
    <<"ssekms_key_id", "s", "x-amz-server-side-encryption-aws-kms-key-id">>,
    <<"server_side_encryption", "s", "x-amz-server-side-encryption">>,
    <<"storage_class", "s", "x-amz-storage-class">>,
    <<"tag_count", "i", "x-amz-tagging-count">>,
    <<"version_id", "s", "x-amz-version-id">>,
    <<"website_redirect_location", "s", "x-amz-website-redirect-location">>,
    <<"object_lock_legal_hold_status", "s", "x-amz-object-lock-legal-hold">>},
  HeadBucket |-> {},
  HeadObject |-> {<<"accept_ranges", "s", "accept-ranges">>,
    <<"archive_status", "s", "x-amz-archive-status">>,
    <<"bucket_key_enabled", "b", "x-amz-server-side-encryption-bucket-key-enabled">>,
    <<"cache_control", "s", "cache-control">>,
    <<"content_disposition", "s", "content-disposition">>,
    <<"content_encoding", "s", "content-encoding">>,
    <<"content_language", "s", "content-language">>,
    <<"content_length", "i", "content-length">>,
    <<"content_type", "s", "content-type">>,
    <<"delete_marker", "b", "x-amz-delete-marker">>,
    <<"e_tag", "s", "etag">>,
    <<"expiration", "s", "x-amz-expiration">>,
    <<"expires", "s", "expires">>,
    <<"last_modified", "s", "last-modified">>,
    <<"missing_meta", "i", "x-amz-missing-meta">>,
    <<"object_lock_mode", "s", "x-amz-object-lock-mode">>,
    <<"object_lock_retain_until_date", "s", "x-amz-object-lock-retain-until-date">>,
    <<"parts_count", "i", "x-amz-mp-parts-count">>,
    <<"replication_status", "s", "x-amz-replication-status">>,
    <<"request_charged", "s", "x-amz-request-charged">>,
    <<"restore", "s", "x-amz-restore">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>,
    <<"ssekms_key_id", "s", "x-amz-server-side-encryption-aws-kms-key-id">>,
    <<"server_side_encryption", "s", "x-amz-server-side-encryption">>,
    <<"storage_class", "s", "x-amz-storage-class">>,
    <<"version_id", "s", "x-amz-version-id">>,
    <<"website_redirect_location", "s", "x-amz-website-redirect-location">>,
    <<"object_lock_legal_hold_status", "s", "x-amz-object-lock-legal-hold">>},
  ListBuckets |-> {},
  ListObjects |-> {},
  ListObjectsV2 |-> {},
  PutObject |-> {<<"bucket_key_enabled", "b", "x-amz-server-side-encryption-bucket-key-enabled">>,
    <<"e_tag", "s", "etag">>,
    <<"expiration", "s", "x-amz-expiration">>,
    <<"request_charged", "s", "x-amz-request-charged">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>,
    <<"ssekms_encryption_context", "s", "x-amz-server-side-encryption-context">>,
    <<"ssekms_key_id", "s", "x-amz-server-side-encryption-aws-kms-key-id">>,
    <<"server_side_encryption", "s", "x-amz-server-side-encryption">>,
    <<"version_id", "s", "x-amz-version-id">>},
  UploadPart |-> {<<"bucket_key_enabled", "b", "x-amz-server-side-encryption-bucket-key-enabled">>,
    <<"e_tag", "s", "etag">>,
    <<"request_charged", "s", "x-amz-request-charged">>,
    <<"sse_customer_algorithm", "s", "x-amz-server-side-encryption-customer-algorithm">>,
    <<"sse_customer_key_md5", "s", "x-amz-server-side-encryption-customer-key-md5">>,
    <<"ssekms_key_id", "s", "x-amz-server-side-encryption-aws-kms-key-id">>,
    <<"server_side_encryption", "s", "x-amz-server-side-encryption">>}
]
OutXml == [
  CompleteMultipartUpload |-> {<<"location", "Location">>, <<"bucket", "Bucket">>, <<"key", "Key">>, <<"e_tag", "ETag">>},
  CopyObject |-> {<<"copy_object_result.e_tag", "ETag">>, <<"copy_object_result.last_modified", "LastModified">>},
  CreateBucket |-> {},
  CreateMultipartUpload |-> {<<"bucket", "Bucket">>, <<"key", "Key">>, <<"upload_id", "UploadId">>},
  DeleteBucket |-> {},
  DeleteObject |-> {},
  DeleteObjects |-> {},
  GetBucketLocation |-> {<<"location_constraint", "">>},
  GetObject |-> {},
  HeadBucket |-> {},
  HeadObject |-> {},
  ListBuckets |-> {<<"owner.id", "Owner.ID">>, <<"owner.display_name", "Owner.DisplayName">>},
  ListObjects |-> {<<"is_truncated", "IsTruncated">>, <<"marker", "Marker">>, <<"next_marker", "NextMarker">>, <<"name", "Name">>, <<"prefix", "Prefix">>, <<"delimiter", "Delimiter">>, <<"max_keys", "MaxKeys">>, <<"encoding_type", "EncodingType">>},
  ListObjectsV2 |-> {<<"is_truncated", "IsTruncated">>, <<"name", "Name">>, <<"prefix", "Prefix">>, <<"delimiter", "Delimiter">>, <<"max_keys", "MaxKeys">>, <<"encoding_type", "EncodingType">>, <<"key_count", "KeyCount">>, <<"continuation_token", "ContinuationToken">>, <<"next_continuation_token", "NextContinuationToken">>, <<"start_after", "StartAfter">>},
  PutObject |-> {},
  UploadPart |-> {}
]
Document == [
  CompleteMultipartUpload |-> "CompleteMultipartUploadResult",
  CopyObject |-> "CopyObjectResult",
  CreateBucket |-> "",
  CreateMultipartUpload |-> "InitiateMultipartUploadResult",
  DeleteBucket |-> "",
  DeleteObject |-> "",
  DeleteObjects |-> "DeleteResult",
  GetBucketLocation |-> "LocationConstraint",
  GetObject |-> "",
  HeadBucket |-> "",
  HeadObject |-> "",
  ListBuckets |-> "ListAllMyBucketsResult",
  ListObjects |-> "ListBucketResult",
  ListObjectsV2 |-> "ListBucketResult",
  PutObject |-> "",
  UploadPart |-> ""
]
OutLists == [
  CompleteMultipartUpload |-> {},
  CopyObject |-> {},
  CreateBucket |-> {},
  CreateMultipartUpload |-> {},
  DeleteBucket |-> {},
  DeleteObject |-> {},
  DeleteObjects |-> {<<"deleted", "Deleted", {<<"key", "Key">>, <<"version_id", "VersionId">>, <<"delete_marker", "DeleteMarker">>, <<"delete_marker_version_id", "DeleteMarkerVersionId">>}>>, <<"errors", "Error", {<<"key", "Key">>, <<"version_id", "VersionId">>, <<"code", "Code">>, <<"message", "Message">>}>>},
  GetBucketLocation |-> {},
  GetObject |-> {},
  HeadBucket |-> {},
  HeadObject |-> {},
  ListBuckets |-> {<<"buckets", "Buckets.Bucket", {<<"name", "Name">>, <<"creation_date", "CreationDate">>}>>},
  ListObjects |-> {<<"contents", "Contents", {<<"key", "Key">>, <<"last_modified", "LastModified">>, <<"e_tag", "ETag">>, <<"size", "Size">>, <<"storage_class", "StorageClass">>, <<"owner.id", "Owner.ID">>, <<"owner.display_name", "Owner.DisplayName">>}>>, <<"common_prefixes", "CommonPrefixes", {<<"prefix", "Prefix">>}>>},
  ListObjectsV2 |-> {<<"contents", "Contents", {<<"key", "Key">>, <<"last_modified", "LastModified">>, <<"e_tag", "ETag">>, <<"size", "Size">>, <<"storage_class", "StorageClass">>, <<"owner.id", "Owner.ID">>, <<"owner.display_name", "Owner.DisplayName">>}>>, <<"common_prefixes", "CommonPrefixes", {<<"prefix", "Prefix">>}>>},
  PutObject |-> {},
  UploadPart |-> {}
]
FormFields == {<<"acl", "acl">>,
  <<"cache_control", "cache-control">>,
  <<"content_disposition", "content-disposition">>,
  <<"content_encoding", "content-encoding">>,
  <<"content_type", "content-type">>,
  <<"expires", "expires">>,
  <<"tagging", "tagging">>,
  <<"storage_class", "x-amz-storage-class">>,
  <<"website_redirect_location", "x-amz-website-redirect-location">>,
  <<"server_side_encryption", "x-amz-server-side-encryption">>,
  <<"ssekms_key_id", "x-amz-server-side-encryption-aws-kms-key-id">>,
  <<"ssekms_encryption_context", "x-amz-server-side-encryption-context">>,
  <<"sse_customer_algorithm", "x-amz-server-side-encryption-customer-algorithm">>,
  <<"sse_customer_key", "x-amz-server-side-encryption-customer-key">>,
  <<"sse_customer_key_md5", "x-amz-server-side-encryption-customer-key-md5">>}
StatusOf == {<<"PermanentRedirect", 301>>,
  <<"Redirect", 307>>,
  <<"TemporaryRedirect", 307>>,
  <<"AmbiguousGrantByEmailAddress", 400>>,
  <<"AuthorizationHeaderMalformed", 400>>,
  <<"BadDigest", 400>>,
  <<"CredentialsNotSupported", 400>>,
  <<"EntityTooSmall", 400>>,
  <<"EntityTooLarge", 400>>,
  <<"ExpiredToken", 400>>,
  <<"IllegalLocationConstraintException", 400>>,
  <<"IllegalVersioningConfigurationException", 400>>,
  <<"IncompleteBody", 400>>,
  <<"IncorrectNumberOfFilesInPostRequest", 400>>,
  <<"InlineDataTooLarge", 400>>,
  <<"InvalidArgument", 400>>,
  <<"InvalidBucketName", 400>>,
  <<"InvalidDigest", 400>>,
  <<"InvalidEncryptionAlgorithmError", 400>>,
  <<"InvalidLocationConstraint", 400>>,
  <<"InvalidPart", 400>>,
  <<"InvalidPartOrder", 400>>,
  <<"InvalidPolicyDocument", 400>>,
  <<"InvalidRequest", 400>>,
  <<"InvalidSOAPRequest", 400>>,
  <<"InvalidStorageClass", 400>>,
  <<"InvalidTargetBucketForLogging", 400>>,
  <<"InvalidToken", 400>>,
  <<"InvalidURI", 400>>,
  <<"KeyTooLongError", 400>>,
  <<"MalformedACLError", 400>>,
  <<"MalformedPOSTRequest", 400>>,
  <<"MalformedXML", 400>>,
  <<"MaxMessageLengthExceeded", 400>>,
  <<"MaxPostPreDataLengthExceededError", 400>>,
  <<"MetadataTooLarge", 400>>,
  <<"MissingRequestBodyError", 400>>,
  <<"MissingSecurityElement", 400>>,
  <<"MissingSecurityHeader", 400>>,
  <<"NoLoggingStatusForKey", 400>>,
  <<"RequestIsNotMultiPartContent", 400>>,
  <<"RequestTimeout", 400>>,
  <<"RequestTorrentOfBucketError", 400>>,
  <<"ServerSideEncryptionConfigurationNotFoundError", 400>>,
  <<"TokenRefreshRequired", 400>>,
  <<"TooManyBuckets", 400>>,
  <<"UnexpectedContent", 400>>,
  <<"UnresolvableGrantByEmailAddress", 400>>,
  <<"UserKeyMustBeSpecified", 400>>,
  <<"XAmzContentSHA256Mismatch", 400>>,
  <<"AccessDenied", 403>>,
  <<"AccountProblem", 403>>,
  <<"AllAccessDisabled", 403>>,
  <<"CrossLocationLoggingProhibited", 403>>,
  <<"InvalidAccessKeyId", 403>>,
  <<"InvalidObjectState", 403>>,
  <<"InvalidPayer", 403>>,
  <<"InvalidSecurity", 403>>,
  <<"NotSignedUp", 403>>,
  <<"ObjectNotInActiveTierError", 403>>,
  <<"RequestTimeTooSkewed", 403>>,
  <<"SignatureDoesNotMatch", 403>>,
  <<"NoSuchBucket", 404>>,
  <<"NoSuchBucketPolicy", 404>>,
  <<"NoSuchKey", 404>>,
  <<"NoSuchLifecycleConfiguration", 404>>,
  <<"NoSuchUpload", 404>>,
  <<"NoSuchVersion", 404>>,
  <<"MethodNotAllowed", 405>>,
  <<"BucketAlreadyExists", 409>>,
  <<"BucketAlreadyOwnedByYou", 409>>,
  <<"BucketNotEmpty", 409>>,
  <<"InvalidBucketState", 409>>,
  <<"OperationAborted", 409>>,
  <<"RestoreAlreadyInProgress", 409>>,
  <<"MissingContentLength", 411>>,
  <<"PreconditionFailed", 412>>,
  <<"InvalidRange", 416>>,
  <<"InternalError", 500>>,
  <<"NotImplemented", 501>>,
  <<"ServiceUnavailable", 503>>,
  <<"SlowDown", 503>>}
AnyStatus == {"NotSupported", "InvalidAddressingHeader", "MissingAttachment"}
BucketSubs == {"accelerate", "acl", "analytics", "cors", "delete", "encryption", "intelligent-tiering", "inventory", "lifecycle", "location", "logging", "metrics", "notification", "object-lock", "ownershipControls", "policy", "policyStatus", "publicAccessBlock", "replication", "requestPayment", "tagging", "uploads", "versioning", "versions", "website"}
ObjectSubs == {"acl", "attributes", "legal-hold", "restore", "retention", "select", "tagging", "torrent", "uploadId", "uploads"}
\* the names of queries, as text and as bytes
QueryNames == {<<"accelerate", <<97, 99, 99, 101, 108, 101, 114, 97, 116, 101>>>>,
  <<"acl", <<97, 99, 108>>>>,
  <<"analytics", <<97, 110, 97, 108, 121, 116, 105, 99, 115>>>>,
  <<"attributes", <<97, 116, 116, 114, 105, 98, 117, 116, 101, 115>>>>,
  <<"continuation-token", <<99, 111, 110, 116, 105, 110, 117, 97, 116, 105, 111, 110, 45, 116, 111, 107, 101, 110>>>>,
  <<"cors", <<99, 111, 114, 115>>>>,
  <<"delete", <<100, 101, 108, 101, 116, 101>>>>,
  <<"delimiter", <<100, 101, 108, 105, 109, 105, 116, 101, 114>>>>,
  <<"encoding-type", <<101, 110, 99, 111, 100, 105, 110, 103, 45, 116, 121, 112, 101>>>>,
  <<"encryption", <<101, 110, 99, 114, 121, 112, 116, 105, 111, 110>>>>,
  <<"fetch-owner", <<102, 101, 116, 99, 104, 45, 111, 119, 110, 101, 114>>>>,
  <<"intelligent-tiering", <<105, 110, 116, 101, 108, 108, 105, 103, 101, 110, 116, 45, 116, 105, 101, 114, 105, 110, 103>>>>,
  <<"inventory", <<105, 110, 118, 101, 110, 116, 111, 114, 121>>>>,
  <<"legal-hold", <<108, 101, 103, 97, 108, 45, 104, 111, 108, 100>>>>,
  <<"lifecycle", <<108, 105, 102, 101, 99, 121, 99, 108, 101>>>>,
  <<"list-type", <<108, 105, 115, 116, 45, 116, 121, 112, 101>>>>,
  <<"location", <<108, 111, 99, 97, 116, 105, 111, 110>>>>,
  <<"logging", <<108, 111, 103, 103, 105, 110, 103>>>>,
  <<"marker", <<109, 97, 114, 107, 101, 114>>>>,
  <<"max-keys", <<109, 97, 120, 45, 107, 101, 121, 115>>>>,
  <<"metrics", <<109, 101, 116, 114, 105, 99, 115>>>>,
  <<"notification", <<110, 111, 116, 105, 102, 105, 99, 97, 116, 105, 111, 110>>>>,
  <<"object-lock", <<111, 98, 106, 101, 99, 116, 45, 108, 111, 99, 107>>>>,
  <<"ownershipControls", <<111, 119, 110, 101, 114, 115, 104, 105, 112, 67, 111, 110, 116, 114, 111, 108, 115>>>>,
  <<"partNumber", <<112, 97, 114, 116, 78, 117, 109, 98, 101, 114>>>>,
  <<"policy", <<112, 111, 108, 105, 99, 121>>>>,
  <<"policyStatus", <<112, 111, 108, 105, 99, 121, 83, 116, 97, 116, 117, 115>>>>,
  <<"prefix", <<112, 114, 101, 102, 105, 120>>>>,
  <<"publicAccessBlock", <<112, 117, 98, 108, 105, 99, 65, 99, 99, 101, 115, 115, 66, 108, 111, 99, 107>>>>,
  <<"replication", <<114, 101, 112, 108, 105, 99, 97, 116, 105, 111, 110>>>>,
  <<"requestPayment", <<114, 101, 113, 117, 101, 115, 116, 80, 97, 121, 109, 101, 110, 116>>>>,
  <<"response-cache-control", <<114, 101, 115, 112, 111, 110, 115, 101, 45, 99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>>>,
  <<"response-content-disposition", <<114, 101, 115, 112, 111, 110, 115, 101, 45, 99, 111, 110, 116, 101, 110, 116, 45, 100, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110>>>>,
  <<"response-content-encoding", <<114, 101, 115, 112, 111, 110, 115, 101, 45, 99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>>>,
  <<"response-content-language", <<114, 101, 115, 112, 111, 110, 115, 101, 45, 99, 111, 110, 116, 101, 110, 116, 45, 108, 97, 110, 103, 117, 97, 103, 101>>>>,
  <<"response-content-type", <<114, 101, 115, 112, 111, 110, 115, 101, 45, 99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>>>,
  <<"response-expires", <<114, 101, 115, 112, 111, 110, 115, 101, 45, 101, 120, 112, 105, 114, 101, 115>>>>,
  <<"restore", <<114, 101, 115, 116, 111, 114, 101>>>>,
  <<"retention", <<114, 101, 116, 101, 110, 116, 105, 111, 110>>>>,
  <<"select", <<115, 101, 108, 101, 99, 116>>>>,
  <<"start-after", <<115, 116, 97, 114, 116, 45, 97, 102, 116, 101, 114>>>>,
  <<"tagging", <<116, 97, 103, 103, 105, 110, 103>>>>,
  <<"torrent", <<116, 111, 114, 114, 101, 110, 116>>>>,
  <<"uploadId", <<117, 112, 108, 111, 97, 100, 73, 100>>>>,
  <<"uploads", <<117, 112, 108, 111, 97, 100, 115>>>>,
  <<"versionId", <<118, 101, 114, 115, 105, 111, 110, 73, 100>>>>,
  <<"versioning", <<118, 101, 114, 115, 105, 111, 110, 105, 110, 103>>>>,
  <<"versions", <<118, 101, 114, 115, 105, 111, 110, 115>>>>,
  <<"website", <<119, 101, 98, 115, 105, 116, 101>>>>}
=============================================================================
