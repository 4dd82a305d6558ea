//! A storage which records what it is given and answers as it is told.

use std::collections::HashMap;
use std::sync::{Arc, Mutex};

use futures::StreamExt;
use s3_server::dto::*;
use s3_server::errors::{S3Error as SErr, S3ErrorCode, S3StorageError, S3StorageResult};
use s3_server::S3Storage;
use serde_json::{json, Value};

#[derive(Default)]
pub struct MockState {
    pub next: Mutex<HashMap<String, Value>>,
    pub calls: Mutex<Vec<Value>>,
}

pub struct Mock(pub Arc<MockState>);

macro_rules! set {
    ($o:ident, $j:ident, s: [$($s:ident),* $(,)?], b: [$($b:ident),* $(,)?], i: [$($i:ident),* $(,)?]) => {
        $( if let Some(v) = $j[stringify!($s)].as_str() { $o.$s = Some(v.to_owned()); } )*
        $( if let Some(v) = $j[stringify!($b)].as_bool() { $o.$b = Some(v); } )*
        $( if let Some(v) = $j[stringify!($i)].as_i64() { $o.$i = Some(v); } )*
    };
}

fn strmap(v: &Value) -> Option<HashMap<String, String>> {
    v.as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_owned())).collect())
}

fn owner(v: &Value) -> Option<Owner> {
    v.as_object().map(|_| {
        let mut o = Owner::default();
        set!(o, v, s: [display_name, id], b: [], i: []);
        o
    })
}

fn objects(v: &Value) -> Option<Vec<Object>> {
    v.as_array().map(|a| {
        a.iter()
            .map(|j| {
                let mut o = Object::default();
                set!(o, j, s: [e_tag, key, last_modified, storage_class], b: [], i: [size]);
                o.owner = owner(&j["owner"]);
                o
            })
            .collect()
    })
}

fn prefixes(v: &Value) -> Option<Vec<rusoto_s3::CommonPrefix>> {
    v.as_array().map(|a| {
        a.iter()
            .map(|j| rusoto_s3::CommonPrefix { prefix: j["prefix"].as_str().map(str::to_owned) })
            .collect()
    })
}

impl Mock {
    fn record(&self, op: &str, input: String, body: Value) {
        self.0.calls.lock().unwrap().push(json!({"op": op, "input": input, "body": body}));
    }

    /// the result to answer with, or an error
    fn result<E>(&self, op: &str) -> Result<Value, S3StorageError<E>> {
        let v = self.0.next.lock().unwrap().get(op).cloned().unwrap_or(json!({}));
        if let Some(e) = v.get("error") {
            let code = S3ErrorCode::parse_from_str(e["code"].as_str().unwrap_or("InternalError"))
                .unwrap_or(S3ErrorCode::InternalError);
            return Err(S3StorageError::Other(SErr::new(code, e["message"].as_str().unwrap_or(""))));
        }
        Ok(v)
    }
}

fn op_err(v: &Value) -> Option<(&str, String)> {
    let e = v.get("op_error")?;
    Some((e["variant"].as_str().unwrap_or(""), e["message"].as_str().unwrap_or("").to_owned()))
}

async fn drain(body: Option<ByteStream>) -> Value {
    let Some(mut body) = body else { return Value::Null };
    let mut data = Vec::new();
    let mut n = 0;
    while let Some(r) = body.next().await {
        match r {
            Ok(b) => {
                n += 1;
                data.extend_from_slice(&b);
            }
            Err(e) => return json!({"err": e.to_string(), "b64": crate::b64e(&data)}),
        }
    }
    json!({"b64": crate::b64e(&data), "frames": n})
}

#[async_trait::async_trait]
impl S3Storage for Mock {
    async fn complete_multipart_upload(
        &self,
        input: CompleteMultipartUploadRequest,
    ) -> S3StorageResult<CompleteMultipartUploadOutput, CompleteMultipartUploadError> {
        self.record("CompleteMultipartUpload", format!("{input:?}"), Value::Null);
        let j = self.result("CompleteMultipartUpload")?;
        let mut o = CompleteMultipartUploadOutput::default();
        set!(o, j, s: [bucket, e_tag, expiration, key, location, request_charged, ssekms_key_id, server_side_encryption, version_id], b: [bucket_key_enabled], i: []);
        Ok(o)
    }

    async fn copy_object(&self, input: CopyObjectRequest) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
        self.record("CopyObject", format!("{input:?}"), Value::Null);
        let j = self.result("CopyObject")?;
        if let Some((_, m)) = op_err(&j) {
            return Err(S3StorageError::Operation(CopyObjectError::ObjectNotInActiveTierError(m)));
        }
        let mut o = CopyObjectOutput::default();
        set!(o, j, s: [copy_source_version_id, expiration, request_charged, sse_customer_algorithm, sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, version_id], b: [bucket_key_enabled], i: []);
        let r = &j["copy_object_result"];
        if r.is_object() {
            let mut c = CopyObjectResult::default();
            set!(c, r, s: [e_tag, last_modified], b: [], i: []);
            o.copy_object_result = Some(c);
        }
        Ok(o)
    }

    async fn create_multipart_upload(
        &self,
        input: CreateMultipartUploadRequest,
    ) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
        self.record("CreateMultipartUpload", format!("{input:?}"), Value::Null);
        let j = self.result("CreateMultipartUpload")?;
        let mut o = CreateMultipartUploadOutput::default();
        set!(o, j, s: [abort_date, abort_rule_id, bucket, key, request_charged, sse_customer_algorithm, sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, upload_id], b: [bucket_key_enabled], i: []);
        Ok(o)
    }

    async fn create_bucket(&self, input: CreateBucketRequest) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
        self.record("CreateBucket", format!("{input:?}"), Value::Null);
        let j = self.result("CreateBucket")?;
        if let Some((v, m)) = op_err(&j) {
            return Err(S3StorageError::Operation(match v {
                "BucketAlreadyExists" => CreateBucketError::BucketAlreadyExists(m),
                _ => CreateBucketError::BucketAlreadyOwnedByYou(m),
            }));
        }
        let mut o = CreateBucketOutput::default();
        set!(o, j, s: [location], b: [], i: []);
        Ok(o)
    }

    async fn delete_bucket(&self, input: DeleteBucketRequest) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
        self.record("DeleteBucket", format!("{input:?}"), Value::Null);
        let _ = self.result("DeleteBucket")?;
        Ok(DeleteBucketOutput)
    }

    async fn delete_object(&self, input: DeleteObjectRequest) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
        self.record("DeleteObject", format!("{input:?}"), Value::Null);
        let j = self.result("DeleteObject")?;
        let mut o = DeleteObjectOutput::default();
        set!(o, j, s: [request_charged, version_id], b: [delete_marker], i: []);
        Ok(o)
    }

    async fn delete_objects(&self, input: DeleteObjectsRequest) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
        self.record("DeleteObjects", format!("{input:?}"), Value::Null);
        let j = self.result("DeleteObjects")?;
        let mut o = DeleteObjectsOutput::default();
        set!(o, j, s: [request_charged], b: [], i: []);
        o.deleted = j["deleted"].as_array().map(|a| {
            a.iter()
                .map(|j| {
                    let mut d = DeletedObject::default();
                    set!(d, j, s: [delete_marker_version_id, key, version_id], b: [delete_marker], i: []);
                    d
                })
                .collect()
        });
        o.errors = j["errors"].as_array().map(|a| {
            a.iter()
                .map(|j| {
                    let mut d = S3Error::default();
                    set!(d, j, s: [code, key, message, version_id], b: [], i: []);
                    d
                })
                .collect()
        });
        Ok(o)
    }

    async fn get_bucket_location(
        &self,
        input: GetBucketLocationRequest,
    ) -> S3StorageResult<GetBucketLocationOutput, GetBucketLocationError> {
        self.record("GetBucketLocation", format!("{input:?}"), Value::Null);
        let j = self.result("GetBucketLocation")?;
        let mut o = GetBucketLocationOutput::default();
        set!(o, j, s: [location_constraint], b: [], i: []);
        Ok(o)
    }

    async fn get_object(&self, input: GetObjectRequest) -> S3StorageResult<GetObjectOutput, GetObjectError> {
        self.record("GetObject", format!("{input:?}"), Value::Null);
        let j = self.result("GetObject")?;
        if let Some((v, m)) = op_err(&j) {
            return Err(S3StorageError::Operation(match v {
                "NoSuchKey" => GetObjectError::NoSuchKey(m),
                _ => GetObjectError::InvalidObjectState(m),
            }));
        }
        let mut o = GetObjectOutput::default();
        set!(o, j,
            s: [accept_ranges, cache_control, content_disposition, content_encoding, content_language, content_range, content_type, e_tag, expiration, expires, last_modified, object_lock_legal_hold_status, object_lock_mode, object_lock_retain_until_date, replication_status, request_charged, restore, sse_customer_algorithm, sse_customer_key_md5, ssekms_key_id, server_side_encryption, storage_class, version_id, website_redirect_location],
            b: [delete_marker, bucket_key_enabled], i: [content_length, missing_meta, parts_count, tag_count]);
        o.metadata = strmap(&j["metadata"]);
        if let Some(a) = j["body"].as_array() {
            let frames: Vec<Result<bytes::Bytes, std::io::Error>> = a
                .iter()
                .map(|f| match f.as_str() {
                    Some(s) => Ok(bytes::Bytes::from(crate::b64d(s))),
                    None => Err(std::io::Error::new(std::io::ErrorKind::Other, "backend")),
                })
                .collect();
            o.body = Some(ByteStream::new(futures::stream::iter(frames)));
        }
        Ok(o)
    }

    async fn head_bucket(&self, input: HeadBucketRequest) -> S3StorageResult<HeadBucketOutput, HeadBucketError> {
        self.record("HeadBucket", format!("{input:?}"), Value::Null);
        let j = self.result("HeadBucket")?;
        if let Some((_, m)) = op_err(&j) {
            return Err(S3StorageError::Operation(HeadBucketError::NoSuchBucket(m)));
        }
        Ok(HeadBucketOutput)
    }

    async fn head_object(&self, input: HeadObjectRequest) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
        self.record("HeadObject", format!("{input:?}"), Value::Null);
        let j = self.result("HeadObject")?;
        if let Some((_, m)) = op_err(&j) {
            return Err(S3StorageError::Operation(HeadObjectError::NoSuchKey(m)));
        }
        let mut o = HeadObjectOutput::default();
        set!(o, j,
            s: [archive_status, accept_ranges, cache_control, content_disposition, content_encoding, content_language, content_type, e_tag, expiration, expires, last_modified, object_lock_legal_hold_status, object_lock_mode, object_lock_retain_until_date, replication_status, request_charged, restore, sse_customer_algorithm, sse_customer_key_md5, ssekms_key_id, server_side_encryption, storage_class, version_id, website_redirect_location],
            b: [delete_marker, bucket_key_enabled], i: [content_length, missing_meta, parts_count]);
        o.metadata = strmap(&j["metadata"]);
        Ok(o)
    }

    async fn list_buckets(&self, input: ListBucketsRequest) -> S3StorageResult<ListBucketsOutput, ListBucketsError> {
        self.record("ListBuckets", format!("{input:?}"), Value::Null);
        let j = self.result("ListBuckets")?;
        let mut o = ListBucketsOutput::default();
        o.owner = owner(&j["owner"]);
        o.buckets = j["buckets"].as_array().map(|a| {
            a.iter()
                .map(|j| {
                    let mut d = Bucket::default();
                    set!(d, j, s: [creation_date, name], b: [], i: []);
                    d
                })
                .collect()
        });
        Ok(o)
    }

    async fn list_objects(&self, input: ListObjectsRequest) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
        self.record("ListObjects", format!("{input:?}"), Value::Null);
        let j = self.result("ListObjects")?;
        if let Some((_, m)) = op_err(&j) {
            return Err(S3StorageError::Operation(ListObjectsError::NoSuchBucket(m)));
        }
        let mut o = ListObjectsOutput::default();
        set!(o, j, s: [delimiter, encoding_type, marker, name, next_marker, prefix], b: [is_truncated], i: [max_keys]);
        o.contents = objects(&j["contents"]);
        o.common_prefixes = prefixes(&j["common_prefixes"]);
        Ok(o)
    }

    async fn list_objects_v2(
        &self,
        input: ListObjectsV2Request,
    ) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
        self.record("ListObjectsV2", format!("{input:?}"), Value::Null);
        let j = self.result("ListObjectsV2")?;
        if let Some((_, m)) = op_err(&j) {
            return Err(S3StorageError::Operation(ListObjectsV2Error::NoSuchBucket(m)));
        }
        let mut o = ListObjectsV2Output::default();
        set!(o, j, s: [continuation_token, delimiter, encoding_type, name, next_continuation_token, prefix, start_after], b: [is_truncated], i: [key_count, max_keys]);
        o.contents = objects(&j["contents"]);
        o.common_prefixes = prefixes(&j["common_prefixes"]);
        Ok(o)
    }

    async fn put_object(&self, mut input: PutObjectRequest) -> S3StorageResult<PutObjectOutput, PutObjectError> {
        let body = input.body.take();
        let text = format!("{input:?}");
        let body = drain(body).await;
        self.record("PutObject", text, body);
        let j = self.result("PutObject")?;
        let mut o = PutObjectOutput::default();
        set!(o, j, s: [e_tag, expiration, request_charged, sse_customer_algorithm, sse_customer_key_md5, ssekms_encryption_context, ssekms_key_id, server_side_encryption, version_id], b: [bucket_key_enabled], i: []);
        Ok(o)
    }

    async fn upload_part(&self, mut input: UploadPartRequest) -> S3StorageResult<UploadPartOutput, UploadPartError> {
        let body = input.body.take();
        let text = format!("{input:?}");
        let body = drain(body).await;
        self.record("UploadPart", text, body);
        let j = self.result("UploadPart")?;
        let mut o = UploadPartOutput::default();
        set!(o, j, s: [e_tag, request_charged, sse_customer_algorithm, sse_customer_key_md5, ssekms_key_id, server_side_encryption], b: [bucket_key_enabled], i: []);
        Ok(o)
    }
}
