From 7a436f5118007d46589fcfb2fd4715b5616e52a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 01/51] fix: require the signed final chunk at the end of a
 chunked upload

A STREAMING-AWS4-HMAC-SHA256-PAYLOAD body that stopped at a chunk boundary, or
inside the next chunk header, was accepted as complete, so a truncated upload
was stored as if it had been signed.
---
 src/streams/aws_chunked_stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index c2d3215..4e04995 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -155,7 +155,7 @@ impl AwsChunkedStream {
                                 match Self::read_meta_bytes(body.as_mut(), prev_bytes, &mut buf)
                                     .await
                                 {
-                                    None => break,
+                                    None => return Err(AwsChunkedStreamError::Incomplete),
                                     Some(Err(e)) => return Err(AwsChunkedStreamError::Io(e)),
                                     Some(Ok(remaining_bytes)) => prev_bytes = remaining_bytes,
                                 };
@@ -182,6 +182,11 @@ impl AwsChunkedStream {
                                 Some(signature) => ctx.prev_signature = signature,
                             }
 
+                            // the stream is complete only when its signed final chunk is received
+                            if meta.size == 0 {
+                                break;
+                            }
+
                             for bytes in data {
                                 y.yield_ok(bytes).await;
                             }
-- 
2.43.0


From 6e4505fc6b903de9958ba8aba49342a601344812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 02/51] fix: replace an object only after its body was received
 completely

PutObject truncated the existing object before the body had been read, so an
upload that failed or was cancelled destroyed the previous object and left a
partial one in its place. Write to a temporary file and rename it.
---
 src/storages/fs.rs | 85 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 75 insertions(+), 10 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 551c52b..edaa71f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -30,6 +30,7 @@ use std::io::{self, SeekFrom};
 use std::path::{Path, PathBuf};
 
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
+use futures::lock::Mutex;
 use futures::stream::{Stream, StreamExt, TryStreamExt};
 use hyper::body::Bytes;
 use md5::{Digest, Md5};
@@ -44,6 +45,35 @@ use async_fs::File;
 pub struct FileSystem {
     /// root path
     root: PathBuf,
+
+    /// held while the files of an object are looked up or replaced
+    commit_lock: Mutex<()>,
+}
+
+/// A temporary file which is removed on drop unless it has been persisted
+#[derive(Debug)]
+struct TempFile {
+    /// path
+    path: PathBuf,
+    /// whether the file has been renamed
+    persisted: bool,
+}
+
+impl TempFile {
+    /// rename the temporary file to its final path
+    fn persist(mut self, path: &Path) -> io::Result<()> {
+        std::fs::rename(&self.path, path)?;
+        self.persisted = true;
+        Ok(())
+    }
+}
+
+impl Drop for TempFile {
+    fn drop(&mut self) {
+        if !self.persisted {
+            let _ = std::fs::remove_file(&self.path);
+        }
+    }
 }
 
 impl FileSystem {
@@ -52,7 +82,10 @@ impl FileSystem {
     /// Returns an `Err` if current working directory is invalid or `root` doesn't exist
     pub fn new(root: impl AsRef<Path>) -> io::Result<Self> {
         let root = env::current_dir()?.join(root).canonicalize()?;
-        Ok(Self { root })
+        Ok(Self {
+            root,
+            commit_lock: Mutex::new(()),
+        })
     }
 
     /// resolve object path under the virtual root
@@ -105,7 +138,7 @@ impl FileSystem {
     }
 
     /// save metadata
-    async fn save_metadata(
+    fn save_metadata(
         &self,
         bucket: &str,
         key: &str,
@@ -114,7 +147,39 @@ impl FileSystem {
         let path = self.get_metadata_path(bucket, key)?;
         let content = serde_json::to_vec(metadata)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-        async_fs::write(&path, &content).await
+        let temp = self.get_temp_file();
+        std::fs::write(&temp.path, &content)?;
+        temp.persist(&path)
+    }
+
+    /// get an unused path for a temporary file under the root
+    fn get_temp_file(&self) -> TempFile {
+        TempFile {
+            path: self.root.join(format!(".tmp-{}", Uuid::new_v4())),
+            persisted: false,
+        }
+    }
+
+    /// atomically replace an object by a completely written temporary file
+    async fn commit_object(
+        &self,
+        bucket: &str,
+        key: &str,
+        temp: TempFile,
+        metadata: Option<&HashMap<String, String>>,
+    ) -> io::Result<()> {
+        let object_path = self.get_object_path(bucket, key)?;
+
+        // NOTE: there is no await point below, so that a dropped request can not be half committed
+        let _guard = self.commit_lock.lock().await;
+
+        if let Some(dir_path) = object_path.parent() {
+            std::fs::create_dir_all(&dir_path)?;
+        }
+        if let Some(metadata) = metadata {
+            self.save_metadata(bucket, key, metadata)?;
+        }
+        temp.persist(&object_path)
     }
 
     /// get md5 sum
@@ -676,14 +741,12 @@ impl S3Storage for FileSystem {
         }
 
         let object_path = trace_try!(self.get_object_path(&bucket, &key));
-        if let Some(dir_path) = object_path.parent() {
-            trace_try!(async_fs::create_dir_all(&dir_path).await);
-        }
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&object_path).await);
+        let temp = self.get_temp_file();
+        let file = trace_try!(File::create(&temp.path).await);
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
@@ -698,9 +761,11 @@ impl S3Storage for FileSystem {
             "PutObject: write file",
         );
 
-        if let Some(ref metadata) = metadata {
-            trace_try!(self.save_metadata(&bucket, &key, metadata).await);
-        }
+        drop(writer);
+        trace_try!(
+            self.commit_object(&bucket, &key, temp, metadata.as_ref())
+                .await
+        );
 
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From 0bd6dc7d4a3d6ac3e05742e2ea819139ecd5ed42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 03/51] fix: drop the metadata of the replaced or deleted
 object

Overwriting an object without metadata, or deleting and re-creating it, left
the metadata of the previous object in place.
---
 src/storages/fs.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index edaa71f..8f6fe5a 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -121,14 +121,14 @@ impl FileSystem {
     }
 
     /// load metadata from fs
-    async fn load_metadata(
+    fn load_metadata(
         &self,
         bucket: &str,
         key: &str,
     ) -> io::Result<Option<HashMap<String, String>>> {
         let path = self.get_metadata_path(bucket, key)?;
         if path.exists() {
-            let content = async_fs::read(&path).await?;
+            let content = std::fs::read(&path)?;
             let map = serde_json::from_slice(&content)
                 .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
             Ok(Some(map))
@@ -137,14 +137,19 @@ impl FileSystem {
         }
     }
 
-    /// save metadata
+    /// save metadata, or remove the saved metadata if there is none
     fn save_metadata(
         &self,
         bucket: &str,
         key: &str,
-        metadata: &HashMap<String, String>,
+        metadata: Option<&HashMap<String, String>>,
     ) -> io::Result<()> {
         let path = self.get_metadata_path(bucket, key)?;
+        let metadata = match metadata {
+            Some(m) => m,
+            None if path.exists() => return std::fs::remove_file(&path),
+            None => return Ok(()),
+        };
         let content = serde_json::to_vec(metadata)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
         let temp = self.get_temp_file();
@@ -176,10 +181,13 @@ impl FileSystem {
         if let Some(dir_path) = object_path.parent() {
             std::fs::create_dir_all(&dir_path)?;
         }
-        if let Some(metadata) = metadata {
-            self.save_metadata(bucket, key, metadata)?;
+        let prev_metadata = self.load_metadata(bucket, key)?;
+        self.save_metadata(bucket, key, metadata)?;
+        if let Err(err) = temp.persist(&object_path) {
+            self.save_metadata(bucket, key, prev_metadata.as_ref())?;
+            return Err(err);
         }
-        temp.persist(&object_path)
+        Ok(())
     }
 
     /// get md5 sum
@@ -342,6 +350,7 @@ impl S3Storage for FileSystem {
             }
         } else {
             trace_try!(async_fs::remove_file(path).await);
+            trace_try!(self.save_metadata(&input.bucket, &input.key, None));
         }
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
@@ -363,6 +372,7 @@ impl S3Storage for FileSystem {
         let mut deleted: Vec<DeletedObject> = Vec::new();
         for (path, key) in objects {
             trace_try!(async_fs::remove_file(path).await);
+            trace_try!(self.save_metadata(&input.bucket, &key, None));
             deleted.push(DeletedObject {
                 key: Some(key),
                 ..DeletedObject::default()
@@ -459,7 +469,7 @@ impl S3Storage for FileSystem {
 
         let stream = BytesStream::new(file, 4096, Some(content_length));
 
-        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
+        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key));
 
         let (md5_sum, duration) = {
             let (ret, duration) =
@@ -519,7 +529,7 @@ impl S3Storage for FileSystem {
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
         let size = file_metadata.len();
 
-        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key).await);
+        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key));
 
         let output: HeadObjectOutput = HeadObjectOutput {
             content_length: Some(trace_try!(size.try_into())),
-- 
2.43.0


From 98b8252ebbb80e38f32a03fc1fbd529b68d13dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 04/51] fix: read content, ETag and metadata of an object from
 one version

GetObject opened the object by path twice and loaded the metadata separately,
so a concurrent overwrite could pair the body of one version with the ETag or
metadata of another.
---
 src/storages/fs.rs | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8f6fe5a..2c86a43 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -194,6 +194,11 @@ impl FileSystem {
     async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
         let object_path = self.get_object_path(bucket, key)?;
         let mut file = File::open(&object_path).await?;
+        Self::get_file_md5_sum(&mut file).await
+    }
+
+    /// get md5 sum of an open file, and rewind it
+    async fn get_file_md5_sum(file: &mut File) -> io::Result<String> {
         let mut buf = vec![0; 4_usize.wrapping_mul(1024).wrapping_mul(1024)];
         let mut md5_hash = Md5::new();
         loop {
@@ -209,6 +214,7 @@ impl FileSystem {
                 )
             }));
         }
+        let _ = file.seek(SeekFrom::Start(0)).await?;
         md5_hash.finalize().apply(crypto::to_hex_string).apply(Ok)
     }
 }
@@ -416,6 +422,9 @@ impl S3Storage for FileSystem {
         };
         let range: Option<Range> = input.range.as_deref().map(parse_range).transpose()?;
 
+        // NOTE: content and metadata must belong to the same version of the object
+        let guard = self.commit_lock.lock().await;
+
         let mut file = match File::open(&object_path).await {
             Ok(file) => file,
             Err(e) => {
@@ -425,6 +434,17 @@ impl S3Storage for FileSystem {
             }
         };
 
+        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key));
+
+        drop(guard);
+
+        let (md5_sum, duration) = {
+            let (ret, duration) =
+                time::count_duration(Self::get_file_md5_sum(&mut file)).await;
+            let md5_sum = trace_try!(ret);
+            (md5_sum, duration)
+        };
+
         let file_metadata = trace_try!(file.metadata().await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
@@ -469,15 +489,6 @@ impl S3Storage for FileSystem {
 
         let stream = BytesStream::new(file, 4096, Some(content_length));
 
-        let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key));
-
-        let (md5_sum, duration) = {
-            let (ret, duration) =
-                time::count_duration(self.get_md5_sum(&input.bucket, &input.key)).await;
-            let md5_sum = trace_try!(ret);
-            (md5_sum, duration)
-        };
-
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
@@ -520,6 +531,8 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
         let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
 
+        let _guard = self.commit_lock.lock().await;
+
         if !path.exists() {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
-- 
2.43.0


From 853ff91a149a38adec796bc83afa8a60c88e2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 05/51] fix: refuse keys that alias other keys, buckets or
 internal files

Keys with '.', '..' or empty segments were normalised under the storage root,
so a request on one bucket could read, overwrite or delete objects of another
bucket, the bucket directory itself or the metadata and part files.
---
 src/storages/fs.rs | 50 +++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 2c86a43..3f5be9e 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -17,7 +17,7 @@ use crate::dto::{
     PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
     UploadPartRequest,
 };
-use crate::errors::{S3StorageError, S3StorageResult};
+use crate::errors::{S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
@@ -89,13 +89,19 @@ impl FileSystem {
     }
 
     /// resolve object path under the virtual root
-    fn get_object_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
+    fn get_object_path(&self, bucket: &str, key: &str) -> S3Result<PathBuf> {
+        // NOTE: segments which are resolved by the file system would make the key
+        //       an alias of another key, another bucket or an internal file
+        let mut segments = key.strip_suffix('/').unwrap_or(key).split('/');
+        if segments.any(|s| matches!(s, "" | "." | "..") || s.contains('\0')) {
+            return Err(invalid_request!(
+                "The specified key is not supported by this storage."
+            ));
+        }
+
         let dir = Path::new(&bucket);
         let file_path = Path::new(&key);
-        let ans = dir
-            .join(&file_path)
-            .absolutize_virtually(&self.root)?
-            .into();
+        let ans = trace_try!(dir.join(&file_path).absolutize_virtually(&self.root)).into();
         Ok(ans)
     }
 
@@ -170,11 +176,10 @@ impl FileSystem {
         &self,
         bucket: &str,
         key: &str,
+        object_path: &Path,
         temp: TempFile,
         metadata: Option<&HashMap<String, String>>,
     ) -> io::Result<()> {
-        let object_path = self.get_object_path(bucket, key)?;
-
         // NOTE: there is no await point below, so that a dropped request can not be half committed
         let _guard = self.commit_lock.lock().await;
 
@@ -183,7 +188,7 @@ impl FileSystem {
         }
         let prev_metadata = self.load_metadata(bucket, key)?;
         self.save_metadata(bucket, key, metadata)?;
-        if let Err(err) = temp.persist(&object_path) {
+        if let Err(err) = temp.persist(object_path) {
             self.save_metadata(bucket, key, prev_metadata.as_ref())?;
             return Err(err);
         }
@@ -191,8 +196,7 @@ impl FileSystem {
     }
 
     /// get md5 sum
-    async fn get_md5_sum(&self, bucket: &str, key: &str) -> io::Result<String> {
-        let object_path = self.get_object_path(bucket, key)?;
+    async fn get_md5_sum(object_path: &Path) -> io::Result<String> {
         let mut file = File::open(&object_path).await?;
         Self::get_file_md5_sum(&mut file).await
     }
@@ -298,8 +302,8 @@ impl S3Storage for FileSystem {
             AmzCopySource::Bucket { bucket, key } => (bucket, key),
         };
 
-        let src_path = trace_try!(self.get_object_path(bucket, key));
-        let dst_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let src_path = self.get_object_path(bucket, key)?;
+        let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
         let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
@@ -318,7 +322,7 @@ impl S3Storage for FileSystem {
             let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
         }
 
-        let md5_sum = trace_try!(self.get_md5_sum(bucket, key).await);
+        let md5_sum = trace_try!(Self::get_md5_sum(&src_path).await);
 
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
@@ -347,7 +351,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
         if input.key.ends_with('/') {
             let mut dir = trace_try!(async_fs::read_dir(&path).await);
             let is_empty = dir.next().await.is_none();
@@ -369,7 +373,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
         let mut objects: Vec<(PathBuf, String)> = Vec::new();
         for object in input.delete.objects {
-            let path = trace_try!(self.get_object_path(&input.bucket, &object.key));
+            let path = self.get_object_path(&input.bucket, &object.key)?;
             if path.exists() {
                 objects.push((path, object.key));
             }
@@ -415,7 +419,7 @@ impl S3Storage for FileSystem {
         &self,
         input: GetObjectRequest,
     ) -> S3StorageResult<GetObjectOutput, GetObjectError> {
-        let object_path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let object_path = self.get_object_path(&input.bucket, &input.key)?;
 
         let parse_range = |s: &str| {
             Range::from_header_str(s).map_err(|err| invalid_request!("Invalid header: range", err))
@@ -529,7 +533,7 @@ impl S3Storage for FileSystem {
         &self,
         input: HeadObjectRequest,
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
-        let path = trace_try!(self.get_object_path(&input.bucket, &input.key));
+        let path = self.get_object_path(&input.bucket, &input.key)?;
 
         let _guard = self.commit_lock.lock().await;
 
@@ -751,7 +755,7 @@ impl S3Storage for FileSystem {
 
         if key.ends_with('/') {
             if content_length == Some(0) {
-                let object_path = trace_try!(self.get_object_path(&bucket, &key));
+                let object_path = self.get_object_path(&bucket, &key)?;
                 trace_try!(async_fs::create_dir_all(&object_path).await);
                 let output = PutObjectOutput::default();
                 return Ok(output);
@@ -763,7 +767,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         }
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
 
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
@@ -786,7 +790,7 @@ impl S3Storage for FileSystem {
 
         drop(writer);
         trace_try!(
-            self.commit_object(&bucket, &key, temp, metadata.as_ref())
+            self.commit_object(&bucket, &key, &object_path, temp, metadata.as_ref())
                 .await
         );
 
@@ -882,7 +886,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
-        let object_path = trace_try!(self.get_object_path(&bucket, &key));
+        let object_path = self.get_object_path(&bucket, &key)?;
         let file = trace_try!(File::create(&object_path).await);
         let mut writer = BufWriter::new(file);
 
@@ -920,7 +924,7 @@ impl S3Storage for FileSystem {
         let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
 
         let (md5_sum, duration) = {
-            let (ret, duration) = time::count_duration(self.get_md5_sum(&bucket, &key)).await;
+            let (ret, duration) = time::count_duration(Self::get_md5_sum(&object_path)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
-- 
2.43.0


From eb1009b9f425a33fcbbc48be18a4e3af61963337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:26 +0000
Subject: [PATCH 06/51] fix: do not treat a directory as an object

HEAD on a prefix of existing keys answered 200 with the size of the directory
and GET answered 500.
---
 src/storages/fs.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 3f5be9e..81d0212 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -438,6 +438,23 @@ impl S3Storage for FileSystem {
             }
         };
 
+        let file_metadata = trace_try!(file.metadata().await);
+        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
+
+        if file_metadata.is_dir() != input.key.ends_with('/') {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
+
+        if file_metadata.is_dir() {
+            let output = GetObjectOutput {
+                content_length: Some(0),
+                last_modified: Some(last_modified),
+                ..GetObjectOutput::default()
+            };
+            return Ok(output);
+        }
+
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key));
 
         drop(guard);
@@ -449,9 +466,6 @@ impl S3Storage for FileSystem {
             (md5_sum, duration)
         };
 
-        let file_metadata = trace_try!(file.metadata().await);
-        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-
         let content_length = {
             let file_len = file_metadata.len();
             let content_len = match range {
@@ -544,7 +558,13 @@ impl S3Storage for FileSystem {
 
         let file_metadata = trace_try!(async_fs::metadata(path).await);
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
-        let size = file_metadata.len();
+
+        let is_dir = file_metadata.is_dir();
+        if is_dir != input.key.ends_with('/') {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
+        let size = if is_dir { 0 } else { file_metadata.len() };
 
         let object_metadata = trace_try!(self.load_metadata(&input.bucket, &input.key));
 
-- 
2.43.0


From 398d6b504965138d9518d24508bf0860a1d7b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 07/51] fix: do not create a missing bucket when an object is
 stored

PutObject and POST uploads into a bucket that does not exist created it
instead of answering NoSuchBucket.
---
 src/storages/fs.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 81d0212..486a481 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -112,6 +112,17 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// check that a bucket exists
+    fn check_bucket(&self, bucket: &str) -> S3Result<()> {
+        if trace_try!(self.get_bucket_path(bucket)).is_dir() {
+            return Ok(());
+        }
+        Err(code_error!(
+            NoSuchBucket,
+            "The specified bucket does not exist."
+        ))
+    }
+
     /// resolve metadata path under the virtual root (custom format)
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
@@ -179,18 +190,20 @@ impl FileSystem {
         object_path: &Path,
         temp: TempFile,
         metadata: Option<&HashMap<String, String>>,
-    ) -> io::Result<()> {
+    ) -> S3Result<()> {
         // NOTE: there is no await point below, so that a dropped request can not be half committed
         let _guard = self.commit_lock.lock().await;
 
+        self.check_bucket(bucket)?;
+
         if let Some(dir_path) = object_path.parent() {
-            std::fs::create_dir_all(&dir_path)?;
+            trace_try!(std::fs::create_dir_all(&dir_path));
         }
-        let prev_metadata = self.load_metadata(bucket, key)?;
-        self.save_metadata(bucket, key, metadata)?;
+        let prev_metadata = trace_try!(self.load_metadata(bucket, key));
+        trace_try!(self.save_metadata(bucket, key, metadata));
         if let Err(err) = temp.persist(object_path) {
-            self.save_metadata(bucket, key, prev_metadata.as_ref())?;
-            return Err(err);
+            trace_try!(self.save_metadata(bucket, key, prev_metadata.as_ref()));
+            return Err(internal_error!(err));
         }
         Ok(())
     }
@@ -773,10 +786,14 @@ impl S3Storage for FileSystem {
             code_error!(IncompleteBody,"You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
 
+        self.check_bucket(&bucket)?;
+
         if key.ends_with('/') {
             if content_length == Some(0) {
                 let object_path = self.get_object_path(&bucket, &key)?;
-                trace_try!(async_fs::create_dir_all(&object_path).await);
+                let _guard = self.commit_lock.lock().await;
+                self.check_bucket(&bucket)?;
+                trace_try!(std::fs::create_dir_all(&object_path));
                 let output = PutObjectOutput::default();
                 return Ok(output);
             }
@@ -809,10 +826,8 @@ impl S3Storage for FileSystem {
         );
 
         drop(writer);
-        trace_try!(
-            self.commit_object(&bucket, &key, &object_path, temp, metadata.as_ref())
-                .await
-        );
+        self.commit_object(&bucket, &key, &object_path, temp, metadata.as_ref())
+            .await?;
 
         let output = PutObjectOutput {
             e_tag: Some(format!("\"{}\"", md5_sum)),
-- 
2.43.0


From ab4969a76f4aa6a819a71ea5eb02c9b7fe975ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 08/51] fix: refuse to delete a bucket that is not empty

DeleteBucket removed the bucket with all its objects; a missing bucket was
answered with an internal error.
---
 src/storages/fs.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 486a481..c5db86b 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -123,6 +123,21 @@ impl FileSystem {
         ))
     }
 
+    /// check whether there is any file in a directory or its subdirectories
+    fn contains_file(dir: &Path) -> io::Result<bool> {
+        let mut dirs = vec![dir.to_owned()];
+        while let Some(dir) = dirs.pop() {
+            for entry in std::fs::read_dir(dir)? {
+                let entry = entry?;
+                if !entry.file_type()?.is_dir() {
+                    return Ok(true);
+                }
+                dirs.push(entry.path());
+            }
+        }
+        Ok(false)
+    }
+
     /// resolve metadata path under the virtual root (custom format)
     fn get_metadata_path(&self, bucket: &str, key: &str) -> io::Result<PathBuf> {
         let encode = |s: &str| base64_simd::URL_SAFE_NO_PAD.encode_to_string(s);
@@ -355,7 +370,18 @@ impl S3Storage for FileSystem {
         input: DeleteBucketRequest,
     ) -> S3StorageResult<DeleteBucketOutput, DeleteBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
-        trace_try!(async_fs::remove_dir_all(path).await);
+
+        let _guard = self.commit_lock.lock().await;
+
+        self.check_bucket(&input.bucket)?;
+        if trace_try!(Self::contains_file(&path)) {
+            let err = code_error!(
+                BucketNotEmpty,
+                "The bucket you tried to delete is not empty."
+            );
+            return Err(err.into());
+        }
+        trace_try!(std::fs::remove_dir_all(path));
         Ok(DeleteBucketOutput)
     }
 
-- 
2.43.0


From eb012e8fb279a20a503705a3b647ce5ff09628dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:19 +0000
Subject: [PATCH 09/51] fix: answer NoSuchBucket when listing a missing bucket

Also keep the tree stable during the walk: an object deleted meanwhile made
the listing fail, and a listing could miss an older object but show a newer one.
---
 src/storages/fs.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index c5db86b..8be2a89 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -656,6 +656,11 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<ListObjectsOutput, ListObjectsError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
+        // NOTE: a listing must not miss or fail on objects which are changed meanwhile
+        let _guard = self.commit_lock.lock().await;
+
+        self.check_bucket(&input.bucket)?;
+
         let mut objects = Vec::new();
         let mut dir_queue = VecDeque::new();
         dir_queue.push_back(path.clone());
@@ -722,6 +727,11 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<ListObjectsV2Output, ListObjectsV2Error> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
+        // NOTE: a listing must not miss or fail on objects which are changed meanwhile
+        let _guard = self.commit_lock.lock().await;
+
+        self.check_bucket(&input.bucket)?;
+
         let mut objects = Vec::new();
         let mut dir_queue = VecDeque::new();
         dir_queue.push_back(path.clone());
-- 
2.43.0


From baabf14065ec833432cfcdd66c59dafd0fb868ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 10/51] fix: encode the keys of a listing with
 encoding-type=url

The response announced EncodingType url but contained the raw keys, so clients
that decode them got different names.
---
 src/storages/fs.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 8be2a89..6572ccd 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -286,6 +286,13 @@ where
     Ok(nwrite)
 }
 
+/// percent-encode the keys of a listing
+fn encode_keys(objects: &mut [Object]) {
+    for key in objects.iter_mut().filter_map(|o| o.key.as_mut()) {
+        *key = urlencoding::encode(key).into_owned();
+    }
+}
+
 /// wrap operation error
 const fn operation_error<E>(e: E) -> S3StorageError<E> {
     S3StorageError::Operation(e)
@@ -703,6 +710,10 @@ impl S3Storage for FileSystem {
             lhs_key.cmp(rhs_key)
         });
 
+        if input.encoding_type.as_deref() == Some("url") {
+            encode_keys(&mut objects);
+        }
+
         // TODO: handle other fields
         let output = ListObjectsOutput {
             contents: Some(objects),
@@ -774,6 +785,10 @@ impl S3Storage for FileSystem {
             lhs_key.cmp(rhs_key)
         });
 
+        if input.encoding_type.as_deref() == Some("url") {
+            encode_keys(&mut objects);
+        }
+
         // TODO: handle other fields
         let output = ListObjectsV2Output {
             key_count: Some(trace_try!(objects.len().try_into())),
-- 
2.43.0


From d51f26a6b67f92017315299fc656bf88d4675373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 11/51] fix: accept only upload ids issued for the same bucket
 and key

Any string was used as an upload id, also as part of a file name, so parts could
be written outside of the storage root and an upload could be completed into
another bucket or key. Record multipart uploads when they are created.
---
 src/storages/fs.rs | 83 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 79 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 6572ccd..0780af8 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -35,6 +35,7 @@ use futures::stream::{Stream, StreamExt, TryStreamExt};
 use hyper::body::Bytes;
 use md5::{Digest, Md5};
 use path_absolutize::Absolutize;
+use serde::{Deserialize, Serialize};
 use tracing::{debug, error};
 use uuid::Uuid;
 
@@ -50,6 +51,15 @@ pub struct FileSystem {
     commit_lock: Mutex<()>,
 }
 
+/// information about a multipart upload
+#[derive(Debug, Serialize, Deserialize)]
+struct UploadInfo {
+    /// bucket
+    bucket: String,
+    /// key
+    key: String,
+}
+
 /// A temporary file which is removed on drop unless it has been persisted
 #[derive(Debug)]
 struct TempFile {
@@ -223,6 +233,45 @@ impl FileSystem {
         Ok(())
     }
 
+    /// resolve the path of the file that describes a multipart upload
+    fn get_upload_path(&self, upload_id: &Uuid) -> PathBuf {
+        self.root.join(format!(".upload_id-{}.json", upload_id))
+    }
+
+    /// save information about a new multipart upload
+    fn save_upload(&self, upload_id: &Uuid, info: &UploadInfo) -> io::Result<()> {
+        let content = serde_json::to_vec(info)
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+        let temp = self.get_temp_file();
+        std::fs::write(&temp.path, &content)?;
+        temp.persist(&self.get_upload_path(upload_id))
+    }
+
+    /// find the multipart upload which was created for a bucket and a key
+    fn find_upload(
+        &self,
+        bucket: &str,
+        key: &str,
+        upload_id: &str,
+    ) -> S3Result<(Uuid, UploadInfo)> {
+        // NOTE: the upload id is used in file names
+        let uuid = upload_id.parse::<Uuid>().ok();
+        if let Some(uuid) = uuid.filter(|uuid| uuid.to_string() == upload_id) {
+            let path = self.get_upload_path(&uuid);
+            if path.exists() {
+                let content = trace_try!(std::fs::read(&path));
+                let info: UploadInfo = trace_try!(serde_json::from_slice(&content));
+                if info.bucket == bucket && info.key == key {
+                    return Ok((uuid, info));
+                }
+            }
+        }
+        Err(code_error!(
+            NoSuchUpload,
+            "The specified multipart upload does not exist."
+        ))
+    }
+
     /// get md5 sum
     async fn get_md5_sum(object_path: &Path) -> io::Result<String> {
         let mut file = File::open(&object_path).await?;
@@ -893,12 +942,23 @@ impl S3Storage for FileSystem {
         &self,
         input: CreateMultipartUploadRequest,
     ) -> S3StorageResult<CreateMultipartUploadOutput, CreateMultipartUploadError> {
-        let upload_id = Uuid::new_v4().to_string();
+        self.check_bucket(&input.bucket)?;
+        let _ = self.get_object_path(&input.bucket, &input.key)?;
+        if input.key.ends_with('/') {
+            return Err(invalid_request!("A directory object can not be uploaded in parts.").into());
+        }
+
+        let upload_id = Uuid::new_v4();
+        let info = UploadInfo {
+            bucket: input.bucket,
+            key: input.key,
+        };
+        trace_try!(self.save_upload(&upload_id, &info));
 
         let output = CreateMultipartUploadOutput {
-            bucket: Some(input.bucket),
-            key: Some(input.key),
-            upload_id: Some(upload_id),
+            bucket: Some(info.bucket),
+            key: Some(info.key),
+            upload_id: Some(upload_id.to_string()),
             ..CreateMultipartUploadOutput::default()
         };
 
@@ -912,11 +972,22 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<UploadPartOutput, UploadPartError> {
         let UploadPartRequest {
             body,
+            bucket,
+            key,
             upload_id,
             part_number,
             ..
         } = input;
 
+        let _ = self.find_upload(&bucket, &key, &upload_id)?;
+        if !(1..=10000).contains(&part_number) {
+            let err = code_error!(
+                InvalidArgument,
+                "Part number must be an integer between 1 and 10000, inclusive."
+            );
+            return Err(err.into());
+        }
+
         let body = body.ok_or_else(||{
             code_error!(IncompleteBody, "You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
@@ -972,6 +1043,8 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
+        let (uuid, _) = self.find_upload(&bucket, &key, &upload_id)?;
+
         let object_path = self.get_object_path(&bucket, &key)?;
         let file = trace_try!(File::create(&object_path).await);
         let mut writer = BufWriter::new(file);
@@ -1007,6 +1080,8 @@ impl S3Storage for FileSystem {
         }
         drop(writer);
 
+        trace_try!(async_fs::remove_file(self.get_upload_path(&uuid)).await);
+
         let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
 
         let (md5_sum, duration) = {
-- 
2.43.0


From e56a7894c7f1306a7c60b9efb820f71054ccef17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:09 +0000
Subject: [PATCH 12/51] fix: replace an uploaded part only after it was
 received completely

A failed, cancelled or concurrent upload of the same part number corrupted the
part that had been acknowledged before.
---
 src/storages/fs.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 0780af8..b73a5cb 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -998,7 +998,8 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let file = trace_try!(File::create(&file_path).await);
+        let temp = self.get_temp_file();
+        let file = trace_try!(File::create(&temp.path).await);
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
@@ -1013,6 +1014,13 @@ impl S3Storage for FileSystem {
             "UploadPart: write file",
         );
 
+        drop(writer);
+        {
+            let _guard = self.commit_lock.lock().await;
+            let _ = self.find_upload(&bucket, &key, &upload_id)?;
+            trace_try!(temp.persist(&file_path));
+        }
+
         let e_tag = format!("\"{}\"", md5_sum);
 
         let output = UploadPartOutput {
-- 
2.43.0


From 7a5db79017ba13c853abf730ef86b999b817a80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:43 +0000
Subject: [PATCH 13/51] fix: complete a multipart upload atomically and only
 from the listed parts

CompleteMultipartUpload truncated the existing object and deleted parts before
it had checked the part list, so a bad request destroyed the object and the
upload. It ignored ETags, refused part numbers with gaps, accepted an empty
list, left unlisted parts behind and failed for keys in new directories.
---
 src/storages/fs.rs | 88 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 73 insertions(+), 15 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index b73a5cb..ea43b60 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -218,7 +218,18 @@ impl FileSystem {
     ) -> S3Result<()> {
         // NOTE: there is no await point below, so that a dropped request can not be half committed
         let _guard = self.commit_lock.lock().await;
+        self.replace_object(bucket, key, object_path, temp, metadata)
+    }
 
+    /// replace an object by a temporary file, `commit_lock` must be held
+    fn replace_object(
+        &self,
+        bucket: &str,
+        key: &str,
+        object_path: &Path,
+        temp: TempFile,
+        metadata: Option<&HashMap<String, String>>,
+    ) -> S3Result<()> {
         self.check_bucket(bucket)?;
 
         if let Some(dir_path) = object_path.parent() {
@@ -272,6 +283,18 @@ impl FileSystem {
         ))
     }
 
+    /// remove the parts of a multipart upload
+    fn remove_parts(&self, upload_id: &Uuid) -> io::Result<()> {
+        let prefix = format!(".upload_id-{}.part-", upload_id);
+        for entry in std::fs::read_dir(&self.root)? {
+            let entry = entry?;
+            if entry.file_name().to_string_lossy().starts_with(&prefix) {
+                std::fs::remove_file(entry.path())?;
+            }
+        }
+        Ok(())
+    }
+
     /// get md5 sum
     async fn get_md5_sum(object_path: &Path) -> io::Result<String> {
         let mut file = File::open(&object_path).await?;
@@ -1054,25 +1077,40 @@ impl S3Storage for FileSystem {
         let (uuid, _) = self.find_upload(&bucket, &key, &upload_id)?;
 
         let object_path = self.get_object_path(&bucket, &key)?;
-        let file = trace_try!(File::create(&object_path).await);
+        let temp = self.get_temp_file();
+        let file = trace_try!(File::create(&temp.path).await);
         let mut writer = BufWriter::new(file);
 
-        let mut cnt: i64 = 0;
+        let mut prev_part_number: i64 = 0;
         for part in multipart_upload.parts.into_iter().flatten() {
-            let part_number = trace_try!(part
+            let part_number = part
                 .part_number
-                .ok_or_else(|| { io::Error::new(io::ErrorKind::NotFound, "Missing part_number") }));
-            cnt = cnt.wrapping_add(1);
-            if part_number != cnt {
-                trace_try!(Err(io::Error::new(
-                    io::ErrorKind::Other,
-                    "InvalidPartOrder"
-                )));
+                .ok_or_else(|| code_error!(MalformedXML, "Missing PartNumber"))?;
+            if part_number <= prev_part_number {
+                let err = code_error!(
+                    InvalidPartOrder,
+                    "The list of parts was not in ascending order."
+                );
+                return Err(err.into());
             }
+            prev_part_number = part_number;
+
             let part_path_str = format!(".upload_id-{}.part-{}", upload_id, part_number);
             let part_path = trace_try!(Path::new(&part_path_str).absolutize_virtually(&self.root));
 
+            let invalid_part =
+                || code_error!(InvalidPart, "One or more of the specified parts could not be found.");
+            if !part_path.exists() {
+                return Err(invalid_part().into());
+            }
             let mut reader = trace_try!(File::open(&part_path).await);
+            let part_md5_sum = trace_try!(Self::get_file_md5_sum(&mut reader).await);
+            if let Some(e_tag) = part.e_tag {
+                if e_tag.trim_matches('"') != part_md5_sum {
+                    return Err(invalid_part().into());
+                }
+            }
+
             let (ret, duration) =
                 time::count_duration(futures::io::copy(&mut reader, &mut writer)).await;
             let size = trace_try!(ret);
@@ -1084,20 +1122,40 @@ impl S3Storage for FileSystem {
                 ?duration,
                 "CompleteMultipartUpload: write file",
             );
-            trace_try!(async_fs::remove_file(&part_path).await);
         }
+        if prev_part_number == 0 {
+            let err = code_error!(MalformedXML, "You must specify at least one part.");
+            return Err(err.into());
+        }
+        trace_try!(writer.flush().await);
         drop(writer);
 
-        trace_try!(async_fs::remove_file(self.get_upload_path(&uuid)).await);
-
-        let file_size = trace_try!(async_fs::metadata(&object_path).await).len();
+        let file_size = trace_try!(async_fs::metadata(&temp.path).await).len();
 
         let (md5_sum, duration) = {
-            let (ret, duration) = time::count_duration(Self::get_md5_sum(&object_path)).await;
+            let (ret, duration) = time::count_duration(Self::get_md5_sum(&temp.path)).await;
             let md5_sum = trace_try!(ret);
             (md5_sum, duration)
         };
 
+        {
+            // NOTE: there is no await point below, see `commit_object`
+            let _guard = self.commit_lock.lock().await;
+
+            // the upload is over if and only if the object is replaced
+            let _ = self.find_upload(&bucket, &key, &upload_id)?;
+            let upload_path = self.get_upload_path(&uuid);
+            let upload = self.get_temp_file();
+            trace_try!(std::fs::rename(&upload_path, &upload.path));
+            if let Err(err) = self.replace_object(&bucket, &key, &object_path, temp, None) {
+                trace_try!(upload.persist(&upload_path));
+                return Err(err.into());
+            }
+            if let Err(err) = self.remove_parts(&uuid) {
+                error!(error = %err, "CompleteMultipartUpload: remove parts");
+            }
+        }
+
         debug!(
             sum = ?md5_sum,
             path = %object_path.display(),
-- 
2.43.0


From 0fb10f53c34b9930ce4cd9570ca16333f2d55b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 14/51] fix: keep the metadata given at CreateMultipartUpload

The x-amz-meta headers of CreateMultipartUpload were ignored, so an object
uploaded in parts never had user metadata.
---
 src/ops/create_multipart_upload.rs | 16 ++++++++++++++++
 src/storages/fs.rs                 |  8 ++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 9ff5fb7..e516547 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -22,6 +22,8 @@ use crate::utils::ResponseExt;
 use crate::utils::XmlWriterExt;
 use crate::{async_trait, Method, Response};
 
+use std::collections::HashMap;
+
 /// `CreateMultipartUpload` handler
 pub struct Handler;
 
@@ -158,5 +160,19 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CreateMultipartUploadRequest> {
         &mut input.object_lock_legal_hold_status,
     );
 
+    let mut metadata: HashMap<String, String> = HashMap::new();
+    for &(name, value) in ctx.headers.as_ref() {
+        let meta_prefix = "x-amz-meta-";
+        if name.starts_with(meta_prefix) {
+            let (_, meta_key) = name.split_at(meta_prefix.len());
+            if !meta_key.is_empty() {
+                let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());
+            }
+        }
+    }
+    if !metadata.is_empty() {
+        input.metadata = Some(metadata);
+    }
+
     Ok(input)
 }
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index ea43b60..f02416b 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -58,6 +58,8 @@ struct UploadInfo {
     bucket: String,
     /// key
     key: String,
+    /// metadata of the object to be created
+    metadata: Option<HashMap<String, String>>,
 }
 
 /// A temporary file which is removed on drop unless it has been persisted
@@ -975,6 +977,7 @@ impl S3Storage for FileSystem {
         let info = UploadInfo {
             bucket: input.bucket,
             key: input.key,
+            metadata: input.metadata,
         };
         trace_try!(self.save_upload(&upload_id, &info));
 
@@ -1074,7 +1077,7 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         };
 
-        let (uuid, _) = self.find_upload(&bucket, &key, &upload_id)?;
+        let (uuid, info) = self.find_upload(&bucket, &key, &upload_id)?;
 
         let object_path = self.get_object_path(&bucket, &key)?;
         let temp = self.get_temp_file();
@@ -1147,7 +1150,8 @@ impl S3Storage for FileSystem {
             let upload_path = self.get_upload_path(&uuid);
             let upload = self.get_temp_file();
             trace_try!(std::fs::rename(&upload_path, &upload.path));
-            if let Err(err) = self.replace_object(&bucket, &key, &object_path, temp, None) {
+            let metadata = info.metadata.as_ref();
+            if let Err(err) = self.replace_object(&bucket, &key, &object_path, temp, metadata) {
                 trace_try!(upload.persist(&upload_path));
                 return Err(err.into());
             }
-- 
2.43.0


From 48d9feb00f8ef86e34aee858e950f240824053f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 15/51] fix: copy objects atomically, with the source's
 metadata, anywhere

Copying an object onto itself truncated it; copying without metadata kept the
metadata of the old destination; a missing source or a destination in a new
directory was answered with an internal error.
---
 src/storages/fs.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index f02416b..7bbea0a 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -234,6 +234,9 @@ impl FileSystem {
     ) -> S3Result<()> {
         self.check_bucket(bucket)?;
 
+        if key.ends_with('/') {
+            return Err(invalid_request!("A directory object must be empty."));
+        }
         if let Some(dir_path) = object_path.parent() {
             trace_try!(std::fs::create_dir_all(&dir_path));
         }
@@ -414,10 +417,28 @@ impl S3Storage for FileSystem {
         let src_path = self.get_object_path(bucket, key)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
-        let file_metadata = trace_try!(async_fs::metadata(&src_path).await);
-        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
+        // NOTE: content and metadata must belong to the same version of the source
+        let guard = self.commit_lock.lock().await;
+
+        self.check_bucket(bucket)?;
+        let src_exists = src_path.is_file() && !key.ends_with('/');
+        if !src_exists {
+            let err = code_error!(NoSuchKey, "The specified key does not exist.");
+            return Err(err.into());
+        }
+        let mut reader = trace_try!(File::open(&src_path).await);
+        let metadata = trace_try!(self.load_metadata(bucket, key));
 
-        let _ = trace_try!(async_fs::copy(&src_path, &dst_path).await);
+        drop(guard);
+
+        let temp = self.get_temp_file();
+        let mut writer = trace_try!(File::create(&temp.path).await);
+        let _ = trace_try!(futures::io::copy(&mut reader, &mut writer).await);
+        drop(writer);
+
+        let file_metadata = trace_try!(async_fs::metadata(&temp.path).await);
+        let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
+        let md5_sum = trace_try!(Self::get_md5_sum(&temp.path).await);
 
         debug!(
             from = %src_path.display(),
@@ -425,13 +446,8 @@ impl S3Storage for FileSystem {
             "CopyObject: copy file",
         );
 
-        let src_metadata_path = trace_try!(self.get_metadata_path(bucket, key));
-        if src_metadata_path.exists() {
-            let dst_metadata_path = trace_try!(self.get_metadata_path(&input.bucket, &input.key));
-            let _ = trace_try!(async_fs::copy(src_metadata_path, dst_metadata_path).await);
-        }
-
-        let md5_sum = trace_try!(Self::get_md5_sum(&src_path).await);
+        self.commit_object(&input.bucket, &input.key, &dst_path, temp, metadata.as_ref())
+            .await?;
 
         let output = CopyObjectOutput {
             copy_object_result: CopyObjectResult {
-- 
2.43.0


From 47c596e7ad6e3b818c99180d0c894640ad3757b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:28 +0000
Subject: [PATCH 16/51] fix: decode the url-encoded x-amz-copy-source header

---
 src/storages/fs.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 7bbea0a..771f07c 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -404,7 +404,11 @@ impl S3Storage for FileSystem {
         &self,
         input: CopyObjectRequest,
     ) -> S3StorageResult<CopyObjectOutput, CopyObjectError> {
-        let copy_source = AmzCopySource::from_header_str(&input.copy_source)
+        // the header is url-encoded and may start with a slash
+        let copy_source = urlencoding::decode(&input.copy_source)
+            .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
+        let copy_source = copy_source.strip_prefix('/').unwrap_or(&copy_source);
+        let copy_source = AmzCopySource::from_header_str(copy_source)
             .map_err(|err| invalid_request!("Invalid header: x-amz-copy-source", err))?;
 
         let (bucket, key) = match copy_source {
-- 
2.43.0


From 63e4d0c8e0f06f9df3626497e51ca035e72fb86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 17/51] fix: honour the metadata directive of CopyObject

With x-amz-metadata-directive REPLACE the request's metadata was ignored and the
source's metadata was copied.
---
 src/ops/copy_object.rs | 16 ++++++++++++++++
 src/storages/fs.rs     | 15 ++++++++++++++-
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 01d36c4..8b07648 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -26,6 +26,8 @@ use crate::storage::S3Storage;
 use crate::utils::{ResponseExt, XmlWriterExt};
 use crate::{async_trait, Method, Response};
 
+use std::collections::HashMap;
+
 /// `CopyObject` handler
 pub struct Handler;
 
@@ -143,6 +145,20 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CopyObjectRequest> {
         &mut input.object_lock_legal_hold_status,
     );
 
+    let mut metadata: HashMap<String, String> = HashMap::new();
+    for &(name, value) in ctx.headers.as_ref() {
+        let meta_prefix = "x-amz-meta-";
+        if name.starts_with(meta_prefix) {
+            let (_, meta_key) = name.split_at(meta_prefix.len());
+            if !meta_key.is_empty() {
+                let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());
+            }
+        }
+    }
+    if !metadata.is_empty() {
+        input.metadata = Some(metadata);
+    }
+
     Ok(input)
 }
 
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 771f07c..1e3a73f 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -421,6 +421,15 @@ impl S3Storage for FileSystem {
         let src_path = self.get_object_path(bucket, key)?;
         let dst_path = self.get_object_path(&input.bucket, &input.key)?;
 
+        let replace_metadata = match input.metadata_directive.as_deref() {
+            None | Some("COPY") => false,
+            Some("REPLACE") => true,
+            Some(_) => {
+                let err = code_error!(InvalidArgument, "Unknown metadata directive.");
+                return Err(err.into());
+            }
+        };
+
         // NOTE: content and metadata must belong to the same version of the source
         let guard = self.commit_lock.lock().await;
 
@@ -431,7 +440,11 @@ impl S3Storage for FileSystem {
             return Err(err.into());
         }
         let mut reader = trace_try!(File::open(&src_path).await);
-        let metadata = trace_try!(self.load_metadata(bucket, key));
+        let metadata = if replace_metadata {
+            input.metadata
+        } else {
+            trace_try!(self.load_metadata(bucket, key))
+        };
 
         drop(guard);
 
-- 
2.43.0


From 5d930711cb3b422a9978357ff4281f881f37f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:56 +0000
Subject: [PATCH 18/51] fix: delete objects idempotently and report every
 requested key

---
 src/dto.rs         |  2 +-
 src/storages/fs.rs | 73 +++++++++++++++++++++++++++++-----------------
 2 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/src/dto.rs b/src/dto.rs
index 68153ff..f6a9f2e 100644
--- a/src/dto.rs
+++ b/src/dto.rs
@@ -14,7 +14,7 @@ pub use rusoto_s3::{
     HeadObjectOutput, HeadObjectRequest, ListBucketsError, ListBucketsOutput, ListObjectsError,
     ListObjectsOutput, ListObjectsRequest, ListObjectsV2Error, ListObjectsV2Output,
     ListObjectsV2Request, Object, ObjectIdentifier, Owner, PutObjectError, PutObjectOutput,
-    PutObjectRequest, UploadPartError, UploadPartOutput, UploadPartRequest,
+    PutObjectRequest, S3Error, UploadPartError, UploadPartOutput, UploadPartRequest,
 };
 
 /// `DeleteBucketOutput`
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 1e3a73f..a4a9d72 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -3,7 +3,7 @@
 use crate::async_trait;
 use crate::data_structures::BytesStream;
 use crate::dto::{
-    Bucket, CompleteMultipartUploadError, CompleteMultipartUploadOutput,
+    self, Bucket, CompleteMultipartUploadError, CompleteMultipartUploadOutput,
     CompleteMultipartUploadRequest, CopyObjectError, CopyObjectOutput, CopyObjectRequest,
     CopyObjectResult, CreateBucketError, CreateBucketOutput, CreateBucketRequest,
     CreateMultipartUploadError, CreateMultipartUploadOutput, CreateMultipartUploadRequest,
@@ -249,6 +249,23 @@ impl FileSystem {
         Ok(())
     }
 
+    /// remove an object if it exists, `commit_lock` must be held
+    fn remove_object(&self, bucket: &str, key: &str) -> S3Result<()> {
+        let path = self.get_object_path(bucket, key)?;
+        if key.ends_with('/') {
+            if path.is_dir() && trace_try!(std::fs::read_dir(&path)).next().is_none() {
+                trace_try!(std::fs::remove_dir(&path));
+            }
+        } else if path.is_file() {
+            trace_try!(std::fs::remove_file(&path));
+            // NOTE: the object is gone, and the next object with this key has its own metadata
+            if let Err(err) = self.save_metadata(bucket, key, None) {
+                error!(error = %err, "remove metadata");
+            }
+        }
+        Ok(())
+    }
+
     /// resolve the path of the file that describes a multipart upload
     fn get_upload_path(&self, upload_id: &Uuid) -> PathBuf {
         self.root.join(format!(".upload_id-{}.json", upload_id))
@@ -504,17 +521,10 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
-        let path = self.get_object_path(&input.bucket, &input.key)?;
-        if input.key.ends_with('/') {
-            let mut dir = trace_try!(async_fs::read_dir(&path).await);
-            let is_empty = dir.next().await.is_none();
-            if is_empty {
-                trace_try!(async_fs::remove_dir(&path).await);
-            }
-        } else {
-            trace_try!(async_fs::remove_file(path).await);
-            trace_try!(self.save_metadata(&input.bucket, &input.key, None));
-        }
+        let _guard = self.commit_lock.lock().await;
+
+        self.check_bucket(&input.bucket)?;
+        self.remove_object(&input.bucket, &input.key)?;
         let output = DeleteObjectOutput::default(); // TODO: handle other fields
         Ok(output)
     }
@@ -524,25 +534,36 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectsRequest,
     ) -> S3StorageResult<DeleteObjectsOutput, DeleteObjectsError> {
-        let mut objects: Vec<(PathBuf, String)> = Vec::new();
+        let mut deleted: Vec<DeletedObject> = Vec::new();
+        let mut errors: Vec<dto::S3Error> = Vec::new();
+
+        let _guard = self.commit_lock.lock().await;
+
+        self.check_bucket(&input.bucket)?;
         for object in input.delete.objects {
-            let path = self.get_object_path(&input.bucket, &object.key)?;
-            if path.exists() {
-                objects.push((path, object.key));
+            let key = Some(object.key.clone());
+            match self.remove_object(&input.bucket, &object.key) {
+                Ok(()) => deleted.push(DeletedObject {
+                    key,
+                    ..DeletedObject::default()
+                }),
+                Err(err) => {
+                    let err = err.into_xml_response();
+                    errors.push(dto::S3Error {
+                        code: Some(err.code.as_static_str().to_owned()),
+                        key,
+                        message: err.message,
+                        ..dto::S3Error::default()
+                    });
+                }
             }
         }
 
-        let mut deleted: Vec<DeletedObject> = Vec::new();
-        for (path, key) in objects {
-            trace_try!(async_fs::remove_file(path).await);
-            trace_try!(self.save_metadata(&input.bucket, &key, None));
-            deleted.push(DeletedObject {
-                key: Some(key),
-                ..DeletedObject::default()
-            });
-        }
+        // in quiet mode only the errors are reported
+        let is_quiet = input.delete.quiet == Some(true);
         let output = DeleteObjectsOutput {
-            deleted: Some(deleted),
+            deleted: Some(deleted).filter(|_| !is_quiet),
+            errors: Some(errors),
             ..DeleteObjectsOutput::default()
         };
         Ok(output)
-- 
2.43.0


From 2fb538fe1ea5101fbac7127fdb6e260b92ae8be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:13 +0000
Subject: [PATCH 19/51] fix: allow an object in place of a directory left by
 deleted objects

---
 src/storages/fs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index a4a9d72..224bbdd 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -240,6 +240,10 @@ impl FileSystem {
         if let Some(dir_path) = object_path.parent() {
             trace_try!(std::fs::create_dir_all(&dir_path));
         }
+        // a directory without any file is left by deleted objects
+        if object_path.is_dir() && !trace_try!(Self::contains_file(object_path)) {
+            trace_try!(std::fs::remove_dir_all(object_path));
+        }
         let prev_metadata = trace_try!(self.load_metadata(bucket, key));
         trace_try!(self.save_metadata(bucket, key, metadata));
         if let Err(err) = temp.persist(object_path) {
-- 
2.43.0


From ec0f799e7067e9291e78dcd672faf17237bbfd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 20/51] fix: answer range reads with the bytes that exist, 206
 and Content-Range

---
 src/ops/get_object.rs |  5 +++-
 src/storages/fs.rs    | 61 +++++++++++++++++++------------------------
 2 files changed, 31 insertions(+), 35 deletions(-)

diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index 88d347f..ae74abe 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -18,7 +18,7 @@ use crate::headers::{
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{time, ResponseExt};
-use crate::{async_trait, Body, Method, Response};
+use crate::{async_trait, Body, Method, Response, StatusCode};
 
 /// `GetObject` handler
 pub struct Handler;
@@ -104,6 +104,9 @@ impl S3Output for GetObjectOutput {
             res.set_optional_header(CONTENT_DISPOSITION, self.content_disposition)?;
             res.set_optional_header(CONTENT_ENCODING, self.content_encoding)?;
             res.set_optional_header(CONTENT_LANGUAGE, self.content_language)?;
+            if self.content_range.is_some() {
+                res.set_status(StatusCode::PARTIAL_CONTENT);
+            }
             res.set_optional_header(CONTENT_RANGE, self.content_range)?;
             res.set_optional_header(CONTENT_TYPE, self.content_type)?;
 
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 224bbdd..2c5a411 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -644,44 +644,36 @@ impl S3Storage for FileSystem {
             (md5_sum, duration)
         };
 
-        let content_length = {
-            let file_len = file_metadata.len();
-            let content_len = match range {
-                None => file_len,
-                Some(Range::Normal { first, last }) => {
-                    if first >= file_len {
-                        let err =
-                            code_error!(InvalidRange, "The requested range cannot be satisfied.");
-                        return Err(err.into());
-                    }
-                    let _ = trace_try!(file.seek(SeekFrom::Start(first)).await);
-
+        let file_len = file_metadata.len();
+        let (content_len, content_range) = match range {
+            None => (file_len, None),
+            Some(range) => {
+                let (first, len) = match range {
                     // HTTP byte range is inclusive
-                    //      len = last + 1 - first
-                    // or   len = file_len - first
-
-                    last.and_then(|x| x.checked_add(1))
-                        .unwrap_or(file_len)
-                        .wrapping_sub(first)
-                }
-                Some(Range::Suffix { last }) => {
-                    let offset = Some(last)
-                        .filter(|&x| x <= file_len)
-                        .and_then(|x| i64::try_from(x).ok())
-                        .and_then(i64::checked_neg);
-
-                    if let Some(x) = offset {
-                        let _ = trace_try!(file.seek(SeekFrom::End(x)).await);
-                    } else {
-                        let err =
-                            code_error!(InvalidRange, "The requested range cannot be satisfied.");
-                        return Err(err.into());
+                    Range::Normal { first, last } => {
+                        let rest = file_len.saturating_sub(first);
+                        let len = last.map_or(rest, |x| {
+                            x.saturating_sub(first).saturating_add(1).min(rest)
+                        });
+                        (first, len)
                     }
-                    last
+                    Range::Suffix { last } => {
+                        let len = last.min(file_len);
+                        (file_len.saturating_sub(len), len)
+                    }
+                };
+                if len == 0 {
+                    let err =
+                        code_error!(InvalidRange, "The requested range cannot be satisfied.");
+                    return Err(err.into());
                 }
-            };
-            trace_try!(usize::try_from(content_len))
+                let _ = trace_try!(file.seek(SeekFrom::Start(first)).await);
+
+                let last = first.saturating_add(len).saturating_sub(1);
+                (len, Some(format!("bytes {}-{}/{}", first, last, file_len)))
+            }
         };
+        let content_length = trace_try!(usize::try_from(content_len));
 
         let stream = BytesStream::new(file, 4096, Some(content_length));
 
@@ -699,6 +691,7 @@ impl S3Storage for FileSystem {
             last_modified: Some(last_modified),
             metadata: object_metadata,
             e_tag: Some(format!("\"{}\"", md5_sum)),
+            content_range,
             ..GetObjectOutput::default() // TODO: handle other fields
         };
 
-- 
2.43.0


From ee610e7ed16240170d0ca1a44a151ec251b56e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 21/51] fix: refuse requests for unsupported sub-resources

---
 src/ops/copy_object.rs |  4 ++++
 src/ops/put_object.rs  |  2 +-
 src/ops/upload_part.rs |  7 +++++--
 src/service.rs         | 27 +++++++++++++++++++++++++++
 4 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 8b07648..4ae1546 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -36,6 +36,10 @@ impl S3Handler for Handler {
     fn is_match(&self, ctx: &'_ ReqContext<'_>) -> bool {
         bool_try!(ctx.req.method() == Method::PUT);
         bool_try!(ctx.path.is_object());
+        // `UploadPartCopy` is another operation
+        if let Some(ref qs) = ctx.query_strings {
+            bool_try!(qs.get("uploadId").is_none() && qs.get("partNumber").is_none());
+        }
         ctx.headers.get(X_AMZ_COPY_SOURCE).is_some()
     }
 
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 32b7ef5..c5f66a7 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -39,7 +39,7 @@ impl S3Handler for Handler {
             bool_try!(ctx.path.is_object());
             match ctx.query_strings {
                 None => true,
-                Some(ref qs) => qs.get("uploadId").is_none(),
+                Some(ref qs) => qs.get("uploadId").is_none() && qs.get("partNumber").is_none(),
             }
         } else {
             false
diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7e6276c..7136003 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -5,8 +5,8 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 use crate::dto::{UploadPartError, UploadPartOutput, UploadPartRequest};
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_REQUEST_CHARGED, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
+    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_COPY_SOURCE, X_AMZ_REQUEST_CHARGED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
 };
 use crate::output::S3Output;
@@ -22,6 +22,9 @@ pub struct Handler;
 impl S3Handler for Handler {
     fn is_match(&self, ctx: &'_ ReqContext<'_>) -> bool {
         bool_try!(ctx.req.method() == Method::PUT);
+        bool_try!(ctx.path.is_object());
+        // `UploadPartCopy` is another operation
+        bool_try!(ctx.headers.get(X_AMZ_COPY_SOURCE).is_none());
         let qs = bool_try_some!(ctx.query_strings.as_ref());
         qs.get("partNumber").is_some() && qs.get("uploadId").is_some()
     }
diff --git a/src/service.rs b/src/service.rs
index 30d5ec0..8934f17 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -169,6 +169,14 @@ impl S3Service {
             ));
         }
 
+        if let Some(ref qs) = ctx.query_strings {
+            let method = ctx.req.method();
+            let mut names = qs.as_ref().iter().map(|&(ref name, _)| name.as_str());
+            if names.any(|n| is_unsupported_sub_resource(method, &ctx.path, n)) {
+                return Err(not_supported!("The operation is not supported yet."));
+            }
+        }
+
         for handler in &self.handlers {
             if handler.is_match(&ctx) {
                 return handler.handle(&mut ctx, &*self.storage).await;
@@ -179,6 +187,25 @@ impl S3Service {
     }
 }
 
+/// Checks whether a query names a sub-resource which the method can not be applied to
+///
+/// A request for a sub-resource must not be handled as a request for the bucket or object itself.
+fn is_unsupported_sub_resource(method: &Method, path: &S3Path<'_>, name: &str) -> bool {
+    match name {
+        "delete" => !(path.is_bucket() && method == Method::POST),
+        "location" => !(path.is_bucket() && method == Method::GET),
+        "uploads" => !(path.is_object() && method == Method::POST),
+        "uploadId" => !(path.is_object() && (method == Method::POST || method == Method::PUT)),
+        "accelerate" | "acl" | "analytics" | "attributes" | "cors" | "encryption"
+        | "intelligent-tiering" | "inventory" | "legal-hold" | "lifecycle" | "logging"
+        | "metrics" | "notification" | "object-lock" | "ownershipControls" | "policy"
+        | "policyStatus" | "publicAccessBlock" | "replication" | "requestPayment" | "restore"
+        | "retention" | "select" | "session" | "tagging" | "torrent" | "versioning"
+        | "versions" | "website" => true,
+        _ => false,
+    }
+}
+
 /// Extract urlencoded URI from Request
 fn decode_uri_path(req: &Request) -> S3Result<Cow<'_, str>> {
     urlencoding::decode(req.uri().path())
-- 
2.43.0


From 6191d5b1aaa4e36eef742c205846e2c1f493ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 22/51] fix: sign the path as it is url-encoded once

---
 src/ops.rs     | 2 ++
 src/service.rs | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ops.rs b/src/ops.rs
index db19c3d..2ba9d63 100644
--- a/src/ops.rs
+++ b/src/ops.rs
@@ -83,6 +83,8 @@ pub struct ReqContext<'a> {
     pub query_strings: Option<OrderedQs>,
     /// body
     pub body: Body,
+    /// decoded uri path
+    pub uri_path: &'a str,
     /// s3 path
     pub path: S3Path<'a>,
     /// mime
diff --git a/src/service.rs b/src/service.rs
index 8934f17..c2a93ff 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -154,6 +154,7 @@ impl S3Service {
             req: &req,
             headers,
             query_strings,
+            uri_path: &uri_path,
             path,
             body,
             mime,
@@ -448,7 +449,7 @@ async fn check_presigned_url(
 
         let canonical_request = signature_v4::create_presigned_canonical_request(
             ctx.req.method(),
-            ctx.req.uri().path(),
+            ctx.uri_path,
             qs.as_ref(),
             &headers,
         );
@@ -501,7 +502,7 @@ async fn check_header_auth(
 
     let signature = {
         let method = ctx.req.method();
-        let uri_path = ctx.req.uri().path();
+        let uri_path = ctx.uri_path;
         let query_strings: &[(String, String)] =
             ctx.query_strings.as_ref().map_or(&[], AsRef::as_ref);
 
-- 
2.43.0


From e550c7a1301b8d5b0582ff729f81d3c4817710ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 23/51] fix: refuse a presigned URL after it expired

---
 src/headers/amz_date.rs | 16 ++++++++++++++++
 src/service.rs          | 11 +++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/headers/amz_date.rs b/src/headers/amz_date.rs
index 71069ec..ed2654e 100644
--- a/src/headers/amz_date.rs
+++ b/src/headers/amz_date.rs
@@ -1,5 +1,7 @@
 //! x-amz-date
 
+use chrono::{DateTime, TimeZone, Utc};
+
 /// x-amz-date
 #[derive(Debug, Clone, Copy)]
 pub struct AmzDate {
@@ -103,4 +105,18 @@ impl AmzDate {
     pub fn to_date(&self) -> String {
         format!("{:04}{:02}{:02}", self.year, self.month, self.day,)
     }
+
+    /// Converts to a point in time, returns `None` if there is no such date or time
+    pub(crate) fn to_utc(self) -> Option<DateTime<Utc>> {
+        let year = i32::try_from(self.year).ok()?;
+        Utc.with_ymd_and_hms(
+            year,
+            self.month,
+            self.day,
+            self.hour,
+            self.minute,
+            self.second,
+        )
+        .single()
+    }
 }
diff --git a/src/service.rs b/src/service.rs
index c2a93ff..74758be 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -23,6 +23,7 @@ use std::ops::Deref;
 use std::sync::Arc;
 use std::task::{Context, Poll};
 
+use chrono::{Duration, Utc};
 use futures::future::BoxFuture;
 use futures::stream::{Stream, StreamExt};
 use hyper::body::Bytes;
@@ -466,6 +467,16 @@ async fn check_presigned_url(
         return Err(signature_mismatch!());
     }
 
+    // check expiration
+    let expired_at = presigned_url
+        .amz_date
+        .to_utc()
+        .and_then(|t| t.checked_add_signed(Duration::seconds(presigned_url.expires.into())))
+        .ok_or_else(|| invalid_request!("Invalid query: X-Amz-Date"))?;
+    if Utc::now() > expired_at {
+        return Err(code_error!(AccessDenied, "Request has expired"));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From a7b358b25472c5cb70a63721af3161f211429082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 24/51] fix: refuse a credential scope or algorithm which was
 not signed

---
 src/service.rs | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 74758be..c4c3bde 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -322,6 +322,19 @@ async fn fetch_secret_key(auth: &(dyn S3Auth + Send + Sync), access_key: &str) -
     }
 }
 
+/// check the algorithm and the credential scope, which are parts of what is signed
+fn check_scope(algorithm: &str, credential: &CredentialV4<'_>, amz_date: &AmzDate) -> S3Result<()> {
+    if algorithm != "AWS4-HMAC-SHA256" {
+        return Err(not_supported!(
+            "x-amz-algorithm other than AWS4-HMAC-SHA256 is not supported."
+        ));
+    }
+    if credential.aws_service != "s3" || credential.date != amz_date.to_date() {
+        return Err(signature_mismatch!());
+    }
+    Ok(())
+}
+
 /// check post signature (v4)
 async fn check_post_signature(
     ctx: &mut ReqContext<'_>,
@@ -376,21 +389,19 @@ async fn check_post_signature(
             return Err(invalid_request!("Invalid field: policy"));
         }
 
-        // check x_amz_algorithm
-        if x_amz_algorithm != "AWS4-HMAC-SHA256" {
-            return Err(not_supported!(
-                "x-amz-algorithm other than AWS4-HMAC-SHA256 is not supported."
-            ));
-        }
-
         // check x_amz_credential
-        let (_, credential) = CredentialV4::parse_by_nom(x_amz_credential)
+        let (rest, credential) = CredentialV4::parse_by_nom(x_amz_credential)
             .map_err(|_err| invalid_request!("Invalid field: x-amz-credential"))?;
+        if !rest.is_empty() {
+            return Err(invalid_request!("Invalid field: x-amz-credential"));
+        }
 
         // check x_amz_date
         let amz_date = AmzDate::from_header_str(x_amz_date)
             .map_err(|err| invalid_request!("Invalid field: x-amz-date", err))?;
 
+        check_scope(x_amz_algorithm, &credential, &amz_date)?;
+
         // fetch secret_key
         let secret_key = fetch_secret_key(auth_provider, credential.access_key_id).await?;
 
@@ -440,6 +451,12 @@ async fn check_presigned_url(
         }
     };
 
+    check_scope(
+        presigned_url.algorithm,
+        &presigned_url.credential,
+        &presigned_url.amz_date,
+    )?;
+
     let secret_key =
         fetch_secret_key(auth_provider, presigned_url.credential.access_key_id).await?;
 
@@ -509,6 +526,8 @@ async fn check_header_auth(
     let amz_date = extract_amz_date(&ctx.headers)?
         .ok_or_else(|| invalid_request!("Missing header: x-amz-date"))?;
 
+    check_scope(authorization.algorithm, &authorization.credential, &amz_date)?;
+
     let is_stream = matches!(amz_content_sha256, AmzContentSha256::MultipleChunks);
 
     let signature = {
-- 
2.43.0


From f1a38a66aeec1ef657aeeff3a945029e0cceef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 25/51] fix: refuse requests with unsigned x-amz headers

---
 src/service.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/service.rs b/src/service.rs
index c4c3bde..b5dcc44 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -335,6 +335,26 @@ fn check_scope(algorithm: &str, credential: &CredentialV4<'_>, amz_date: &AmzDat
     Ok(())
 }
 
+/// check that all `x-amz-*` headers are signed, since they change the meaning of the request
+fn check_unsigned_headers(
+    headers: &OrderedHeaders<'_>,
+    signed_headers: &OrderedHeaders<'_>,
+) -> S3Result<()> {
+    // NOTE: the payload hash is a part of what is signed anyway
+    let is_unsigned = |name: &str| {
+        name.starts_with("x-amz-")
+            && name != X_AMZ_CONTENT_SHA256.as_str()
+            && signed_headers.get(name).is_none()
+    };
+    if headers.as_ref().iter().any(|&(name, _)| is_unsigned(name)) {
+        return Err(code_error!(
+            AccessDenied,
+            "There were headers present in the request which were not signed."
+        ));
+    }
+    Ok(())
+}
+
 /// check post signature (v4)
 async fn check_post_signature(
     ctx: &mut ReqContext<'_>,
@@ -465,6 +485,8 @@ async fn check_presigned_url(
             .headers
             .map_signed_headers(&presigned_url.signed_headers);
 
+        check_unsigned_headers(&ctx.headers, &headers)?;
+
         let canonical_request = signature_v4::create_presigned_canonical_request(
             ctx.req.method(),
             ctx.uri_path,
@@ -541,6 +563,8 @@ async fn check_header_auth(
             .headers
             .map_signed_headers(&authorization.signed_headers);
 
+        check_unsigned_headers(&ctx.headers, &headers)?;
+
         let canonical_request = if is_stream {
             signature_v4::create_canonical_request(
                 method,
-- 
2.43.0


From 059d597ae5e13ac31804ce80c7e0f534721ea4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:04 +0000
Subject: [PATCH 26/51] fix: canonicalize repeated spaces and repeated headers

---
 src/data_structures/ordered_headers.rs |  3 +-
 src/signature_v4.rs                    | 91 ++++++++++++++------------
 2 files changed, 51 insertions(+), 43 deletions(-)

diff --git a/src/data_structures/ordered_headers.rs b/src/data_structures/ordered_headers.rs
index 3ec6cb0..63f1fac 100644
--- a/src/data_structures/ordered_headers.rs
+++ b/src/data_structures/ordered_headers.rs
@@ -35,7 +35,8 @@ impl<'a> OrderedHeaders<'a> {
         for (name, value) in req.headers().iter() {
             headers.push((name.as_str(), value.to_str()?));
         }
-        headers.sort_unstable();
+        // NOTE: the order of the values of a header is significant
+        headers.sort_by_key(|&(name, _)| name);
 
         Ok(Self { headers })
     }
diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index df3f8c8..b0ff377 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -161,6 +161,51 @@ fn is_skipped_query_string(name: &str) -> bool {
     name == "X-Amz-Signature"
 }
 
+/// push `<CanonicalHeaders>`: one line for each name, values are trimmed and joined by commas
+fn push_canonical_headers(ans: &mut String, headers: &OrderedHeaders<'_>) {
+    let mut prev_name = None;
+    for &(name, value) in headers.as_ref().iter() {
+        if is_skipped_header(name) {
+            continue;
+        }
+        if prev_name == Some(name) {
+            ans.push(',');
+        } else {
+            if prev_name.is_some() {
+                ans.push('\n');
+            }
+            ans.push_str(name);
+            ans.push(':');
+        }
+        // sequential spaces are converted to a single space
+        for (idx, word) in value.split_ascii_whitespace().enumerate() {
+            if idx > 0 {
+                ans.push(' ');
+            }
+            ans.push_str(word);
+        }
+        prev_name = Some(name);
+    }
+    if prev_name.is_some() {
+        ans.push('\n');
+    }
+}
+
+/// push `<SignedHeaders>`
+fn push_signed_headers(ans: &mut String, headers: &OrderedHeaders<'_>) {
+    let mut prev_name = None;
+    for &(name, _) in headers.as_ref().iter() {
+        if is_skipped_header(name) || prev_name == Some(name) {
+            continue;
+        }
+        if prev_name.is_some() {
+            ans.push(';');
+        }
+        ans.push_str(name);
+        prev_name = Some(name);
+    }
+}
+
 /// sha256 hash of an empty string
 const EMPTY_STRING_SHA256_HASH: &str =
     "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855";
@@ -233,31 +278,12 @@ pub fn create_canonical_request(
 
             // FIXME: check HOST, Content-Type, x-amz-security-token, x-amz-content-sha256
 
-            for &(name, value) in headers.as_ref().iter() {
-                if is_skipped_header(name) {
-                    continue;
-                }
-                ans.push_str(name);
-                ans.push(':');
-                ans.push_str(value.trim());
-                ans.push('\n');
-            }
+            push_canonical_headers(ans, headers);
             ans.push('\n');
         })
         .also(|ans| {
             // <SignedHeaders>\n
-            let mut first_flag = true;
-            for &(name, _) in headers.as_ref().iter() {
-                if is_skipped_header(name) {
-                    continue;
-                }
-                if first_flag {
-                    first_flag = false;
-                } else {
-                    ans.push(';');
-                }
-                ans.push_str(name);
-            }
+            push_signed_headers(ans, headers);
 
             ans.push('\n');
         })
@@ -422,31 +448,12 @@ pub fn create_presigned_canonical_request(
 
             // FIXME: check HOST, Content-Type, x-amz-security-token, x-amz-content-sha256
 
-            for &(name, value) in headers.as_ref().iter() {
-                if is_skipped_header(name) {
-                    continue;
-                }
-                ans.push_str(name);
-                ans.push(':');
-                ans.push_str(value.trim());
-                ans.push('\n');
-            }
+            push_canonical_headers(ans, headers);
             ans.push('\n');
         })
         .also(|ans| {
             // <SignedHeaders>\n
-            let mut first_flag = true;
-            for &(name, _) in headers.as_ref().iter() {
-                if is_skipped_header(name) {
-                    continue;
-                }
-                if first_flag {
-                    first_flag = false;
-                } else {
-                    ans.push(';');
-                }
-                ans.push_str(name);
-            }
+            push_signed_headers(ans, headers);
 
             ans.push('\n');
         })
-- 
2.43.0


From 9c180aaab45bb275533f013fa1c360674a93b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:29 +0000
Subject: [PATCH 27/51] fix: cover a signed user-agent header by the signature

---
 src/signature_v4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_v4.rs b/src/signature_v4.rs
index b0ff377..428d0a3 100644
--- a/src/signature_v4.rs
+++ b/src/signature_v4.rs
@@ -153,7 +153,7 @@ fn uri_encode(output: &mut String, input: &str, encode_slash: bool) {
 
 /// is skipped header
 fn is_skipped_header(header: &str) -> bool {
-    ["authorization", "user-agent"].contains(&header)
+    header == "authorization"
 }
 
 /// is skipped query string
-- 
2.43.0


From 45122400f786a313bcffd56575b1aa452699319c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 28/51] fix: wait for complete lines of a multipart form

---
 src/streams/multipart.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 8f1bed3..f8922bd 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -368,7 +368,7 @@ struct CrlfLines<'a> {
 }
 
 impl<'a> CrlfLines<'a> {
-    /// poll next line
+    /// poll next complete line
     fn next_line(&mut self) -> Option<&'a [u8]> {
         for idx in memchr_iter(b'\n', self.slice) {
             if idx == 0 {
@@ -389,11 +389,8 @@ impl<'a> CrlfLines<'a> {
                 return Some(left);
             }
         }
-        if self.slice.is_empty() {
-            None
-        } else {
-            Some(mem::take(&mut self.slice))
-        }
+        // NOTE: the rest of the line may arrive later
+        None
     }
 
     /// split by pattern and return previous bytes
-- 
2.43.0


From 87eefddac21556cd522c29ab86f5ea2291d4992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:38 +0000
Subject: [PATCH 29/51] fix: refuse form metadata that can not be returned in
 headers

---
 src/ops/put_object.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index c5f66a7..4cabc9d 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -24,8 +24,11 @@ use crate::utils::{Apply, ResponseExt};
 use crate::{async_trait, Method, Response};
 
 use std::collections::HashMap;
+use std::convert::TryFrom;
 use std::mem;
 
+use hyper::header::{HeaderName, HeaderValue};
+
 /// `PutObject` handler
 pub struct Handler;
 
@@ -72,6 +75,11 @@ fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart
         if name.starts_with(meta_prefix) {
             let (_, meta_key) = name.split_at(meta_prefix.len());
             if !meta_key.is_empty() {
+                // the metadata must be able to be returned in headers
+                if HeaderName::try_from(&*name).is_err() || HeaderValue::try_from(&*value).is_err()
+                {
+                    return Err(invalid_request!("Invalid field: x-amz-meta-*"));
+                }
                 let _prev = metadata.insert(meta_key.to_owned(), mem::take(value));
             }
         }
-- 
2.43.0


From 5f62edb9d8f9e28621377d1540d7876b2e36da95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 30/51] fix: refuse content which does not match Content-MD5

---
 src/ops/put_object.rs |  3 +++
 src/storages/fs.rs    | 38 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 4cabc9d..ab06422 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -89,6 +89,9 @@ fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart
     }
     // TODO: how to handle the other fields?
 
+    // the header describes the form instead of the file
+    input.content_md5 = None;
+
     let file_stream = multipart.file.stream;
 
     input.body = file_stream.apply(transform_file_stream).apply(Some);
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 2c5a411..d694705 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -384,6 +384,30 @@ where
     Ok(nwrite)
 }
 
+/// parse `Content-MD5`
+fn parse_content_md5(content_md5: Option<&str>) -> S3Result<Option<Vec<u8>>> {
+    let decode = |s: &str| base64_simd::STANDARD.decode_type::<Vec<u8>>(s).ok();
+    match content_md5.map(decode) {
+        None => Ok(None),
+        Some(Some(digest)) if digest.len() == 16 => Ok(Some(digest)),
+        Some(_) => Err(code_error!(
+            InvalidDigest,
+            "The Content-MD5 you specified is not valid."
+        )),
+    }
+}
+
+/// check that the received content is the content which the client sent
+fn check_content_md5(expected: Option<&[u8]>, actual: &[u8]) -> S3Result<()> {
+    if expected.map_or(false, |expected| expected != actual) {
+        return Err(code_error!(
+            BadDigest,
+            "The Content-MD5 you specified did not match what we received."
+        ));
+    }
+    Ok(())
+}
+
 /// percent-encode the keys of a listing
 fn encode_keys(objects: &mut [Object]) {
     for key in objects.iter_mut().filter_map(|o| o.key.as_mut()) {
@@ -955,9 +979,12 @@ impl S3Storage for FileSystem {
             key,
             metadata,
             content_length,
+            content_md5,
             ..
         } = input;
 
+        let content_md5 = parse_content_md5(content_md5.as_deref())?;
+
         let body = body.ok_or_else(||{
             code_error!(IncompleteBody,"You did not provide the number of bytes specified by the Content-Length HTTP header.")
         })?;
@@ -991,7 +1018,9 @@ impl S3Storage for FileSystem {
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
-        let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+        let digest = md5_hash.finalize();
+        check_content_md5(content_md5.as_deref(), &digest)?;
+        let md5_sum = digest.apply(crypto::to_hex_string);
 
         debug!(
             path = %object_path.display(),
@@ -1053,9 +1082,12 @@ impl S3Storage for FileSystem {
             key,
             upload_id,
             part_number,
+            content_md5,
             ..
         } = input;
 
+        let content_md5 = parse_content_md5(content_md5.as_deref())?;
+
         let _ = self.find_upload(&bucket, &key, &upload_id)?;
         if !(1..=10000).contains(&part_number) {
             let err = code_error!(
@@ -1081,7 +1113,9 @@ impl S3Storage for FileSystem {
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
         let size = trace_try!(ret);
-        let md5_sum = md5_hash.finalize().apply(crypto::to_hex_string);
+        let digest = md5_hash.finalize();
+        check_content_md5(content_md5.as_deref(), &digest)?;
+        let md5_sum = digest.apply(crypto::to_hex_string);
 
         debug!(
             path = %file_path.display(),
-- 
2.43.0


From 21a9ab61b4d238ecc162e2cee0e8312bd5207925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 31/51] fix: name the elements of XML responses as S3 does

---
 src/ops/create_multipart_upload.rs | 2 +-
 src/ops/list_objects.rs            | 8 ++++----
 src/ops/list_objects_v2.rs         | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index e516547..b174644 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -84,7 +84,7 @@ impl S3Output for CreateMultipartUploadOutput {
             let upload_id = self.upload_id;
 
             res.set_xml_body(256, |w| {
-                w.stack("InitialMultipartUploadResult", |w| {
+                w.stack("InitiateMultipartUploadResult", |w| {
                     w.opt_element("Bucket", bucket)?;
                     w.opt_element("Key", key)?;
                     w.opt_element("UploadId", upload_id)?;
diff --git a/src/ops/list_objects.rs b/src/ops/list_objects.rs
index 6e9cbc8..0848309 100644
--- a/src/ops/list_objects.rs
+++ b/src/ops/list_objects.rs
@@ -88,11 +88,11 @@ impl S3Output for ListObjectsOutput {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
-                        w.iter_element(prefixes.into_iter(), |w, common_prefix| {
+                    for common_prefix in self.common_prefixes.into_iter().flatten() {
+                        w.stack("CommonPrefixes", |w| {
                             w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                        })?;
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     Ok(())
                 })
diff --git a/src/ops/list_objects_v2.rs b/src/ops/list_objects_v2.rs
index c7609dc..82c2aee 100644
--- a/src/ops/list_objects_v2.rs
+++ b/src/ops/list_objects_v2.rs
@@ -94,11 +94,11 @@ impl S3Output for ListObjectsV2Output {
                     w.opt_element("Prefix", self.prefix)?;
                     w.opt_element("Delimiter", self.delimiter)?;
                     w.opt_element("MaxKeys", self.max_keys.map(|k| k.to_string()))?;
-                    w.opt_stack("CommonPrefixes", self.common_prefixes, |w, prefixes| {
-                        w.iter_element(prefixes.into_iter(), |w, common_prefix| {
+                    for common_prefix in self.common_prefixes.into_iter().flatten() {
+                        w.stack("CommonPrefixes", |w| {
                             w.opt_element("Prefix", common_prefix.prefix)
-                        })
-                    })?;
+                        })?;
+                    }
                     w.opt_element("EncodingType", self.encoding_type)?;
                     w.opt_element("KeyCount", self.key_count.map(|k| k.to_string()))?;
                     w.opt_element("ContinuationToken", self.continuation_token)?;
-- 
2.43.0


From a4cc5c8ce5ef2d6e5b09502d0f2e40cb5e6cd17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 32/51] fix: enforce the policy of a form POST upload

---
 src/lib.rs               |   1 +
 src/post_policy.rs       | 118 +++++++++++++++++++++++++++++++++++++++
 src/service.rs           |  11 +++-
 src/storages/fs.rs       |  16 +++++-
 src/streams/multipart.rs |  38 ++++++++++++-
 src/utils/body.rs        |  14 +++++
 6 files changed, 193 insertions(+), 5 deletions(-)
 create mode 100644 src/post_policy.rs

diff --git a/src/lib.rs b/src/lib.rs
index e3ad9db..bb14fd8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -130,6 +130,7 @@ pub(crate) mod utils;
 mod data_structures;
 mod ops;
 mod output;
+mod post_policy;
 mod signature_v4;
 mod streams;
 
diff --git a/src/post_policy.rs b/src/post_policy.rs
new file mode 100644
index 0000000..0dcf52e
--- /dev/null
+++ b/src/post_policy.rs
@@ -0,0 +1,118 @@
+//! policy of a POST Object form
+//!
+//! See <https://docs.aws.amazon.com/AmazonS3/latest/API/sigv4-HTTPPOSTConstructPolicy.html>
+
+use crate::errors::S3Result;
+use crate::streams::multipart::Multipart;
+
+use std::ops::RangeInclusive;
+
+use chrono::{DateTime, Utc};
+use serde::Deserialize;
+use serde_json::Value;
+
+/// policy document
+#[derive(Debug, Deserialize)]
+pub struct PostPolicy {
+    /// expiration
+    expiration: String,
+    /// conditions
+    conditions: Vec<Value>,
+}
+
+/// fields which need no condition
+fn is_exempt_field(name: &str) -> bool {
+    matches!(name, "policy" | "x-amz-signature") || name.starts_with("x-ignore-")
+}
+
+impl PostPolicy {
+    /// parse a base64 encoded policy document
+    pub fn from_base64(policy: &str) -> Option<Self> {
+        let json: Vec<u8> = base64_simd::STANDARD.decode_type(policy).ok()?;
+        serde_json::from_slice(&json).ok()
+    }
+
+    /// check the fields of a form, returns the allowed range of the file size
+    pub fn check(&self, bucket: &str, form: &Multipart) -> S3Result<RangeInclusive<u64>> {
+        let expiration = DateTime::parse_from_rfc3339(&self.expiration)
+            .map_err(|err| code_error!(InvalidPolicyDocument, "Invalid expiration", err))?;
+        if Utc::now() > expiration {
+            return Err(code_error!(
+                AccessDenied,
+                "Invalid according to Policy: Policy expired."
+            ));
+        }
+
+        let get_field = |name: &str| {
+            if name == "bucket" {
+                return bucket;
+            }
+            form.find_field_value(name).unwrap_or("")
+        };
+
+        let mut names: Vec<String> = Vec::new();
+        let mut min_size: u64 = 0;
+        let mut max_size: u64 = u64::MAX;
+
+        for condition in &self.conditions {
+            let is_satisfied = match *condition {
+                Value::Object(ref map) => map.iter().all(|(name, value)| {
+                    let name = name.to_ascii_lowercase();
+                    let ans = value.as_str() == Some(get_field(&name));
+                    names.push(name);
+                    ans
+                }),
+                Value::Array(ref array) => match *array.as_slice() {
+                    [Value::String(ref op), ref min, ref max] if op == "content-length-range" => {
+                        match (to_u64(min), to_u64(max)) {
+                            (Some(min), Some(max)) => {
+                                min_size = min_size.max(min);
+                                max_size = max_size.min(max);
+                                true
+                            }
+                            _ => false,
+                        }
+                    }
+                    [Value::String(ref op), Value::String(ref name), Value::String(ref value)] => {
+                        let name = name.strip_prefix('$').unwrap_or(name).to_ascii_lowercase();
+                        let field = get_field(&name);
+                        names.push(name);
+                        match op.as_str() {
+                            "eq" => field == value,
+                            "starts-with" => field.starts_with(value.as_str()),
+                            _ => false,
+                        }
+                    }
+                    _ => false,
+                },
+                _ => false,
+            };
+            if !is_satisfied {
+                return Err(code_error!(
+                    AccessDenied,
+                    "Invalid according to Policy: Policy Condition failed."
+                ));
+            }
+        }
+
+        for &(ref name, _) in &form.fields {
+            let name = name.to_ascii_lowercase();
+            if !is_exempt_field(&name) && !names.contains(&name) {
+                return Err(code_error!(
+                    AccessDenied,
+                    "Invalid according to Policy: Extra input fields."
+                ));
+            }
+        }
+
+        Ok(min_size..=max_size)
+    }
+}
+
+/// the sizes are numbers or strings of digits
+fn to_u64(value: &Value) -> Option<u64> {
+    match *value {
+        Value::String(ref s) => s.parse().ok(),
+        ref v => v.as_u64(),
+    }
+}
diff --git a/src/service.rs b/src/service.rs
index b5dcc44..11cf014 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -8,6 +8,7 @@ use crate::headers::{AUTHORIZATION, CONTENT_TYPE, X_AMZ_CONTENT_SHA256, X_AMZ_DA
 use crate::ops::{ReqContext, S3Handler};
 use crate::output::S3Output;
 use crate::path::{S3Path, S3PathErrorKind};
+use crate::post_policy::PostPolicy;
 use crate::signature_v4;
 use crate::storage::S3Storage;
 use crate::streams::aws_chunked_stream::AwsChunkedStream;
@@ -393,7 +394,7 @@ async fn check_post_signature(
 
     let body = take_io_body(&mut ctx.body);
 
-    let multipart = multipart::transform_multipart(body, boundary.as_str().as_bytes())
+    let mut multipart = multipart::transform_multipart(body, boundary.as_str().as_bytes())
         .await
         .map_err(|err| invalid_request!("Invalid multipart/form-data body", err))?;
     {
@@ -438,6 +439,14 @@ async fn check_post_signature(
         if signature != x_amz_signature {
             return Err(signature_mismatch!());
         }
+
+        // check what the policy allows
+        let post_policy = PostPolicy::from_base64(policy)
+            .ok_or_else(|| code_error!(InvalidPolicyDocument, "Invalid field: policy"))?;
+        if let S3Path::Bucket { bucket } = ctx.path {
+            let size_range = post_policy.check(bucket, &multipart)?;
+            multipart.file.stream.set_size_range(size_range);
+        }
     }
 
     // store ctx value
diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index d694705..f5dd478 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -17,7 +17,7 @@ use crate::dto::{
     PutObjectError, PutObjectOutput, PutObjectRequest, UploadPartError, UploadPartOutput,
     UploadPartRequest,
 };
-use crate::errors::{S3Result, S3StorageError, S3StorageResult};
+use crate::errors::{S3Error, S3Result, S3StorageError, S3StorageResult};
 use crate::headers::{AmzCopySource, Range};
 use crate::path::S3Path;
 use crate::storage::S3Storage;
@@ -384,6 +384,18 @@ where
     Ok(nwrite)
 }
 
+/// wrap an error of receiving a body, which may be caused by the request itself
+fn body_error(err: io::Error) -> S3Error {
+    if !err.get_ref().map_or(false, |e| e.is::<S3Error>()) {
+        return internal_error!(err);
+    }
+    match err.into_inner().map(|e| e.downcast::<S3Error>()) {
+        Some(Ok(e)) => *e,
+        Some(Err(e)) => internal_error!(e),
+        None => internal_error!("Can not obtain the request body"),
+    }
+}
+
 /// parse `Content-MD5`
 fn parse_content_md5(content_md5: Option<&str>) -> S3Result<Option<Vec<u8>>> {
     let decode = |s: &str| base64_simd::STANDARD.decode_type::<Vec<u8>>(s).ok();
@@ -1017,7 +1029,7 @@ impl S3Storage for FileSystem {
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
-        let size = trace_try!(ret);
+        let size = ret.map_err(body_error)?;
         let digest = md5_hash.finalize();
         check_content_md5(content_md5.as_deref(), &digest)?;
         let md5_sum = digest.apply(crypto::to_hex_string);
diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index f8922bd..3f88bf2 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -5,11 +5,14 @@
 
 use crate::utils::Also;
 
+use std::convert::TryInto;
 use std::fmt::{self, Debug};
 use std::future::Future;
 use std::io;
 use std::mem;
+use std::ops::RangeInclusive;
 use std::pin::Pin;
+use std::task::Poll;
 
 use futures::stream::{Stream, StreamExt};
 use hyper::body::Bytes;
@@ -228,6 +231,12 @@ pub enum FileStreamError {
     /// Incomplete error
     #[error("FileStreamError: Incomplete")]
     Incomplete,
+    /// The file is smaller than allowed
+    #[error("FileStreamError: TooSmall")]
+    TooSmall,
+    /// The file is larger than allowed
+    #[error("FileStreamError: TooLarge")]
+    TooLarge,
     /// IO error
     #[error("FileStreamError: IO: {}",.0)]
     Io(io::Error),
@@ -241,6 +250,10 @@ pub struct FileStream {
     /// inner stream
     inner:
         AsyncTryStream<Bytes, FileStreamError, SyncBoxFuture<'static, Result<(), FileStreamError>>>,
+    /// allowed range of the file size
+    size_range: RangeInclusive<u64>,
+    /// size of the file so far
+    size: u64,
 }
 
 impl Debug for FileStream {
@@ -346,8 +359,15 @@ impl FileStream {
                     Box::pin(gen(y, body, crlf_pat, prev_bytes))
                 },
             ),
+            size_range: 0..=u64::MAX,
+            size: 0,
         }
     }
+
+    /// set the allowed range of the file size
+    pub fn set_size_range(&mut self, size_range: RangeInclusive<u64>) {
+        self.size_range = size_range;
+    }
 }
 
 impl Stream for FileStream {
@@ -356,8 +376,22 @@ impl Stream for FileStream {
     fn poll_next(
         mut self: Pin<&mut Self>,
         cx: &mut std::task::Context<'_>,
-    ) -> std::task::Poll<Option<Self::Item>> {
-        Pin::new(&mut self.inner).poll_next(cx)
+    ) -> Poll<Option<Self::Item>> {
+        let item = futures::ready!(Pin::new(&mut self.inner).poll_next(cx));
+        let item = match item {
+            Some(Ok(bytes)) => {
+                let len: u64 = bytes.len().try_into().unwrap_or(u64::MAX);
+                self.size = self.size.saturating_add(len);
+                if self.size > *self.size_range.end() {
+                    Some(Err(FileStreamError::TooLarge))
+                } else {
+                    Some(Ok(bytes))
+                }
+            }
+            None if self.size < *self.size_range.start() => Some(Err(FileStreamError::TooSmall)),
+            item => item,
+        };
+        Poll::Ready(item)
     }
 }
 
diff --git a/src/utils/body.rs b/src/utils/body.rs
index e75e451..2afaf78 100644
--- a/src/utils/body.rs
+++ b/src/utils/body.rs
@@ -35,6 +35,20 @@ pub fn transform_file_stream(file_stream: FileStream) -> ByteStream {
                 FileStreamError::Incomplete => {
                     io::Error::new(io::ErrorKind::Other, format!("Error obtaining chunk: {e}"))
                 }
+                FileStreamError::TooSmall => io::Error::new(
+                    io::ErrorKind::Other,
+                    code_error!(
+                        EntityTooSmall,
+                        "Your proposed upload is smaller than the minimum allowed size."
+                    ),
+                ),
+                FileStreamError::TooLarge => io::Error::new(
+                    io::ErrorKind::Other,
+                    code_error!(
+                        EntityTooLarge,
+                        "Your proposed upload exceeds the maximum allowed size."
+                    ),
+                ),
                 FileStreamError::Io(e) => e,
             })
         })
-- 
2.43.0


From 48625d17a4424886d8e5df63532bfa51db487f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 33/51] fix: answer BucketAlreadyExists also when creating a
 bucket twice at once

---
 src/storages/fs.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index f5dd478..47795d7 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -441,17 +441,19 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if path.exists() {
-            let err = CreateBucketError::BucketAlreadyExists(String::from(
-                "The requested bucket name is not available. \
-                    The bucket namespace is shared by all users of the system. \
-                    Please select a different name and try again.",
-            ));
-            return Err(operation_error(err));
+        match async_fs::create_dir(&path).await {
+            Ok(()) => {}
+            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
+                let err = CreateBucketError::BucketAlreadyExists(String::from(
+                    "The requested bucket name is not available. \
+                        The bucket namespace is shared by all users of the system. \
+                        Please select a different name and try again.",
+                ));
+                return Err(operation_error(err));
+            }
+            Err(err) => return Err(internal_error!(err).into()),
         }
 
-        trace_try!(async_fs::create_dir(&path).await);
-
         let output = CreateBucketOutput::default(); // TODO: handle other fields
         Ok(output)
     }
-- 
2.43.0


From 9f13fa32022e8f08773b50e46d88e856c598521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 34/51] fix: refuse a malformed size of a chunk

---
 src/streams/aws_chunked_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streams/aws_chunked_stream.rs b/src/streams/aws_chunked_stream.rs
index 4e04995..109aa8c 100644
--- a/src/streams/aws_chunked_stream.rs
+++ b/src/streams/aws_chunked_stream.rs
@@ -95,7 +95,7 @@ fn parse_chunk_meta(mut input: &[u8]) -> nom::IResult<&[u8], ChunkMeta<'_>> {
         (size_str, signature)
     });
 
-    let (_, size) = map_res(hex_u32, TryInto::try_into)(size_str)?;
+    let (_, size) = all_consuming(map_res(hex_u32, TryInto::try_into))(size_str)?;
 
     Ok((input, ChunkMeta { size, signature }))
 }
-- 
2.43.0


From 93abd557c990aed1285a1813381b11e76cc1259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:46 +0000
Subject: [PATCH 35/51] fix: accept the part list of CompleteMultipartUpload

---
 src/ops/complete_multipart_upload.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index 7008694..d12b4d4 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -113,8 +113,8 @@ mod xml {
     /// `CompletedMultipartUpload`
     pub struct CompletedMultipartUpload {
         /// Part
-        #[serde(rename = "Part")]
-        parts: Option<Vec<CompletedPart>>,
+        #[serde(rename = "Part", default)]
+        parts: Vec<CompletedPart>,
     }
 
     /// `CompletedPart`
@@ -131,7 +131,7 @@ mod xml {
     impl From<CompletedMultipartUpload> for super::CompletedMultipartUpload {
         fn from(m: CompletedMultipartUpload) -> Self {
             Self {
-                parts: m.parts.map(|v| v.into_iter().map(From::from).collect()),
+                parts: Some(m.parts.into_iter().map(From::from).collect()),
             }
         }
     }
-- 
2.43.0


From bea0059ec2f4844f2a981527e1194aa9637b42d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 36/51] fix: keep the spaces of a key in DeleteObjects

The XML deserializer trims text, so that a request to delete " a "
deleted "a". Spaces inside of <Key> are now given to it as character
references, which it keeps.
---
 src/ops/delete_objects.rs |  4 ++--
 src/utils/body.rs         | 44 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 46 insertions(+), 2 deletions(-)

diff --git a/src/ops/delete_objects.rs b/src/ops/delete_objects.rs
index 1e7411c..9698dba 100644
--- a/src/ops/delete_objects.rs
+++ b/src/ops/delete_objects.rs
@@ -11,7 +11,7 @@ use crate::headers::{
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
-use crate::utils::body::deserialize_xml_body;
+use crate::utils::body::deserialize_xml_body_verbatim;
 use crate::utils::{ResponseExt, XmlWriterExt};
 use crate::{async_trait, Method, Response};
 
@@ -41,7 +41,7 @@ impl S3Handler for Handler {
 /// extract operation request
 pub async fn extract(ctx: &mut ReqContext<'_>) -> S3Result<DeleteObjectsRequest> {
     let bucket = ctx.unwrap_bucket_path();
-    let delete: self::xml::Delete = deserialize_xml_body(ctx.take_body())
+    let delete: self::xml::Delete = deserialize_xml_body_verbatim(ctx.take_body(), "Key")
         .await
         .map_err(|err| invalid_request!("Invalid xml format", err))?;
 
diff --git a/src/utils/body.rs b/src/utils/body.rs
index 2afaf78..da83a48 100644
--- a/src/utils/body.rs
+++ b/src/utils/body.rs
@@ -8,6 +8,8 @@ use crate::{Body, BoxStdError};
 use std::io;
 
 use futures::stream::StreamExt;
+use quick_xml::events::Event;
+use quick_xml::{Reader, Writer};
 use serde::de::DeserializeOwned;
 
 /// deserialize xml body
@@ -17,6 +19,48 @@ pub async fn deserialize_xml_body<T: DeserializeOwned>(body: Body) -> Result<T,
     Ok(ans)
 }
 
+/// deserialize xml body, keeping the spaces at the begin and the end of the text of an element
+pub async fn deserialize_xml_body_verbatim<T: DeserializeOwned>(
+    body: Body,
+    element: &str,
+) -> Result<T, BoxStdError> {
+    let bytes = hyper::body::to_bytes(body).await?;
+    let bytes = escape_spaces(&bytes, element.as_bytes())?;
+    let ans: T = quick_xml::de::from_reader(&*bytes)?;
+    Ok(ans)
+}
+
+/// The deserializer trims plain spaces, but not character references
+fn escape_spaces(xml: &[u8], element: &[u8]) -> Result<Vec<u8>, quick_xml::Error> {
+    let mut reader = Reader::from_reader(xml);
+    let mut writer = Writer::new(Vec::with_capacity(xml.len()));
+    let mut inside = false;
+    loop {
+        match reader.read_event()? {
+            Event::Eof => return Ok(writer.into_inner()),
+            Event::Text(text) if inside => {
+                for &b in text.iter() {
+                    match b {
+                        b' ' => writer.inner().extend_from_slice(b"&#32;"),
+                        b'\t' => writer.inner().extend_from_slice(b"&#9;"),
+                        b'\n' => writer.inner().extend_from_slice(b"&#10;"),
+                        b'\r' => writer.inner().extend_from_slice(b"&#13;"),
+                        _ => writer.inner().push(b),
+                    }
+                }
+            }
+            event => {
+                match event {
+                    Event::Start(ref e) => inside = e.local_name().as_ref() == element,
+                    Event::End(_) => inside = false,
+                    _ => {}
+                }
+                writer.write_event(event)?;
+            }
+        }
+    }
+}
+
 /// transform `Body` into `ByteStream`
 pub fn transform_body_stream(body: Body) -> ByteStream {
     body.map(|try_chunk| {
-- 
2.43.0


From 75eecf3aed24a6a4cb2d3f5ffae49ff4f3750c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 37/51] fix: let clients recover carriage returns from XML
 responses

An XML reader replaces a plain carriage return by a line feed, so that a
key containing one was reported under another name.
---
 src/utils/response.rs |  7 +++++--
 src/utils/xml.rs      | 24 ++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/utils/response.rs b/src/utils/response.rs
index 3a25c9a..9405b60 100644
--- a/src/utils/response.rs
+++ b/src/utils/response.rs
@@ -5,7 +5,7 @@ use crate::{Body, BoxStdError, Mime, Response, StatusCode};
 use std::{collections::HashMap, convert::TryFrom};
 
 use hyper::header::{self, HeaderName, HeaderValue, InvalidHeaderValue};
-use xml::{common::XmlVersion, writer::XmlEvent, EventWriter};
+use xml::{common::XmlVersion, writer::XmlEvent, EmitterConfig, EventWriter};
 
 /// `ResponseExt`
 pub trait ResponseExt {
@@ -73,7 +73,10 @@ impl ResponseExt for Response {
     {
         let mut body = Vec::with_capacity(cap);
         {
-            let mut w = EventWriter::new(&mut body);
+            // `XmlWriterExt` escapes the text
+            let mut config = EmitterConfig::new();
+            config.perform_escaping = false;
+            let mut w = EventWriter::new_with_config(&mut body, config);
             w.write(XmlEvent::StartDocument {
                 version: XmlVersion::Version10,
                 encoding: Some("UTF-8"),
diff --git a/src/utils/xml.rs b/src/utils/xml.rs
index 671d117..11c24c9 100644
--- a/src/utils/xml.rs
+++ b/src/utils/xml.rs
@@ -1,5 +1,6 @@
 //! helper trait for writing xml
 
+use std::borrow::Cow;
 use std::io;
 use std::ops::Deref;
 use xml::writer::{events::XmlEvent, EventWriter, Result};
@@ -31,6 +32,25 @@ pub trait XmlWriterExt {
     ) -> Result<()>;
 }
 
+/// escape text so that a reader recovers it, including carriage returns,
+/// which XML readers replace by line feeds unless they are character references
+fn escape_text(s: &str) -> Cow<'_, str> {
+    if !s.contains(['&', '<', '>', '\r']) {
+        return Cow::Borrowed(s);
+    }
+    let mut ans = String::with_capacity(s.len().saturating_add(16));
+    for c in s.chars() {
+        match c {
+            '&' => ans.push_str("&amp;"),
+            '<' => ans.push_str("&lt;"),
+            '>' => ans.push_str("&gt;"),
+            '\r' => ans.push_str("&#13;"),
+            _ => ans.push(c),
+        }
+    }
+    Cow::Owned(ans)
+}
+
 impl<W: io::Write> XmlWriterExt for EventWriter<W> {
     fn stack(&mut self, name: &str, f: impl FnOnce(&mut Self) -> Result<()>) -> Result<()> {
         self.write(XmlEvent::start_element(name))?;
@@ -54,14 +74,14 @@ impl<W: io::Write> XmlWriterExt for EventWriter<W> {
 
     fn element(&mut self, name: &str, data: &str) -> Result<()> {
         self.write(XmlEvent::start_element(name))?;
-        self.write(XmlEvent::characters(data))?;
+        self.write(XmlEvent::characters(&escape_text(data)))?;
         self.write(XmlEvent::end_element())
     }
 
     fn opt_element(&mut self, name: &str, data: Option<impl Deref<Target = str>>) -> Result<()> {
         if let Some(data) = data {
             self.write(XmlEvent::start_element(name))?;
-            self.write(XmlEvent::characters(&data))?;
+            self.write(XmlEvent::characters(&escape_text(&data)))?;
             self.write(XmlEvent::end_element())?;
         }
         Ok(())
-- 
2.43.0


From e0cd856f6c2b10888895f45b869f560a00d96356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 38/51] fix: copy objects whose key contains a line feed

---
 src/headers/amz_copy_source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/headers/amz_copy_source.rs b/src/headers/amz_copy_source.rs
index 185394b..1a07ede 100644
--- a/src/headers/amz_copy_source.rs
+++ b/src/headers/amz_copy_source.rs
@@ -69,7 +69,7 @@ impl<'a> AmzCopySource<'a> {
         // TODO: use nom parser
 
         // bucket pattern
-        let pattern: &Regex = static_regex!("^(.+?)/(.+)$");
+        let pattern: &Regex = static_regex!("(?s)^(.+?)/(.+)$");
 
         match pattern.captures(header) {
             None => Err(ParseAmzCopySourceError::PatternMismatch),
-- 
2.43.0


From cf0a45d43f97362d57d659a67428d1b303b4ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:33 +0000
Subject: [PATCH 39/51] fix: take the object of a form upload from the fields
 of the form, not from request headers

The policy of a form covers only its fields: a header x-amz-meta-* stored
metadata that the policy does not permit.
---
 src/ops/put_object.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index ab06422..af2ba0d 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -89,9 +89,6 @@ fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart
     }
     // TODO: how to handle the other fields?
 
-    // the header describes the form instead of the file
-    input.content_md5 = None;
-
     let file_stream = multipart.file.stream;
 
     input.body = file_stream.apply(transform_file_stream).apply(Some);
@@ -132,6 +129,12 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
         ..PutObjectRequest::default()
     };
 
+    if let Some(multipart) = ctx.multipart.take() {
+        // the headers describe the form instead of the file, and the policy does not cover them
+        extract_from_multipart(&mut input, multipart)?;
+        return Ok(input);
+    }
+
     let h = &ctx.headers;
     h.assign(CONTENT_LENGTH, &mut input.content_length)
         .map_err(|err| invalid_request!("Invalid header: content-length", err))?;
@@ -204,10 +207,7 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
         input.metadata = Some(metadata);
     }
 
-    match ctx.multipart.take() {
-        None => input.body = ctx.take_body().apply(transform_body_stream).apply(Some),
-        Some(multipart) => extract_from_multipart(&mut input, multipart)?,
-    };
+    input.body = ctx.take_body().apply(transform_body_stream).apply(Some);
 
     Ok(input)
 }
-- 
2.43.0


From 2fa03acb0930262755bb9c5f506ed9b669aabf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 40/51] fix: pass all fields of a request to the storage

The expected bucket owner, the bucket key setting, the request payer of
UploadPart and the version, part number and response overrides of reads were
dropped.
---
 src/headers.rs                       |  9 +++++++
 src/ops/complete_multipart_upload.rs |  8 ++++--
 src/ops/copy_object.rs               | 31 ++++++++++++++++++-----
 src/ops/create_multipart_upload.rs   | 23 ++++++++++++++---
 src/ops/delete_object.rs             |  8 ++++--
 src/ops/delete_objects.rs            |  7 ++++-
 src/ops/get_object.rs                | 38 +++++++++++++++++++++++-----
 src/ops/head_object.rs               | 18 ++++++++++---
 src/ops/list_objects.rs              | 10 +++++---
 src/ops/list_objects_v2.rs           | 10 +++++---
 src/ops/put_object.rs                | 25 ++++++++++++++----
 src/ops/upload_part.rs               | 10 ++++++--
 12 files changed, 159 insertions(+), 38 deletions(-)

diff --git a/src/headers.rs b/src/headers.rs
index 69b8cce..bac11d8 100644
--- a/src/headers.rs
+++ b/src/headers.rs
@@ -180,4 +180,13 @@ declare_header_name! {
 
     /// x-amz-expected-bucket-owner
     X_AMZ_EXPECTED_BUCKET_OWNER: "x-amz-expected-bucket-owner";
+
+    /// x-amz-source-expected-bucket-owner
+    X_AMZ_SOURCE_EXPECTED_BUCKET_OWNER: "x-amz-source-expected-bucket-owner";
+
+    /// x-amz-server-side-encryption-bucket-key-enabled
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED: "x-amz-server-side-encryption-bucket-key-enabled";
+
+    /// x-amz-archive-status
+    X_AMZ_ARCHIVE_STATUS: "x-amz-archive-status";
 }
diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index d12b4d4..d53f5dc 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -8,8 +8,8 @@ use crate::dto::{
 };
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    X_AMZ_EXPIRATION, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_VERSION_ID,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_VERSION_ID,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -62,6 +62,10 @@ async fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CompleteMultipartUploadRe
 
     let h = &ctx.headers;
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
 
     Ok(input)
 }
diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 4ae1546..274f1fe 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -12,14 +12,15 @@ use crate::headers::{
     X_AMZ_COPY_SOURCE_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_COPY_SOURCE_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
     X_AMZ_COPY_SOURCE_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_COPY_SOURCE_VERSION_ID,
-    X_AMZ_EXPIRATION, X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP,
-    X_AMZ_GRANT_WRITE_ACP, X_AMZ_METADATA_DIRECTIVE, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
-    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ,
+    X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP, X_AMZ_METADATA_DIRECTIVE,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING, X_AMZ_TAGGING_DIRECTIVE, X_AMZ_VERSION_ID,
-    X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    X_AMZ_SOURCE_EXPECTED_BUCKET_OWNER, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING,
+    X_AMZ_TAGGING_DIRECTIVE, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -138,6 +139,24 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CopyObjectRequest> {
         &mut input.copy_source_sse_customer_key_md5,
     );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+        &mut input.bucket_key_enabled,
+    )
+    .map_err(|err| {
+        invalid_request!(
+            "Invalid header: x-amz-server-side-encryption-bucket-key-enabled",
+            err
+        )
+    })?;
+    h.assign_str(
+        X_AMZ_SOURCE_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_source_bucket_owner,
+    );
     h.assign_str(X_AMZ_TAGGING, &mut input.tagging);
     h.assign_str(X_AMZ_OBJECT_LOCK_MODE, &mut input.object_lock_mode);
     h.assign_str(
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index b174644..02b8d3d 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -8,10 +8,11 @@ use crate::dto::{
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
     CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE, CONTENT_TYPE, EXPIRES,
-    X_AMZ_ABORT_DATE, X_AMZ_ABORT_RULE_ID, X_AMZ_ACL, X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ,
-    X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
-    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_ABORT_DATE, X_AMZ_ABORT_RULE_ID, X_AMZ_ACL, X_AMZ_EXPECTED_BUCKET_OWNER,
+    X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
     X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING, X_AMZ_WEBSITE_REDIRECT_LOCATION,
@@ -149,6 +150,20 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CreateMultipartUploadRequest> {
         &mut input.ssekms_encryption_context,
     );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+        &mut input.bucket_key_enabled,
+    )
+    .map_err(|err| {
+        invalid_request!(
+            "Invalid header: x-amz-server-side-encryption-bucket-key-enabled",
+            err
+        )
+    })?;
     h.assign_str(X_AMZ_TAGGING, &mut input.tagging);
     h.assign_str(X_AMZ_OBJECT_LOCK_MODE, &mut input.object_lock_mode);
     h.assign_str(
diff --git a/src/ops/delete_object.rs b/src/ops/delete_object.rs
index dee4e8d..2ab78f0 100644
--- a/src/ops/delete_object.rs
+++ b/src/ops/delete_object.rs
@@ -5,8 +5,8 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 use crate::dto::{DeleteObjectError, DeleteObjectOutput, DeleteObjectRequest};
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_DELETE_MARKER, X_AMZ_MFA, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_VERSION_ID,
+    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_DELETE_MARKER, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_MFA,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_VERSION_ID,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -54,6 +54,10 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<DeleteObjectRequest> {
 
     h.assign_str(X_AMZ_MFA, &mut input.mfa);
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
 
     if let Some(ref qs) = ctx.query_strings {
         input.version_id = qs.get("versionId").map(ToOwned::to_owned);
diff --git a/src/ops/delete_objects.rs b/src/ops/delete_objects.rs
index 9698dba..71592c2 100644
--- a/src/ops/delete_objects.rs
+++ b/src/ops/delete_objects.rs
@@ -7,7 +7,8 @@ use crate::dto::{
 };
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_MFA, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
+    X_AMZ_BYPASS_GOVERNANCE_RETENTION, X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_MFA,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -54,6 +55,10 @@ pub async fn extract(ctx: &mut ReqContext<'_>) -> S3Result<DeleteObjectsRequest>
     let h = &ctx.headers;
     h.assign_str(X_AMZ_MFA, &mut input.mfa);
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
     h.assign(
         X_AMZ_BYPASS_GOVERNANCE_RETENTION,
         &mut input.bypass_governance_retention,
diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index ae74abe..8aa515e 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -8,12 +8,13 @@ use crate::headers::{
     ACCEPT_RANGES, CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE,
     CONTENT_LENGTH, CONTENT_RANGE, CONTENT_TYPE, ETAG, EXPIRES, IF_MATCH, IF_MODIFIED_SINCE,
     IF_NONE_MATCH, IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER,
-    X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
-    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS,
-    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING_COUNT, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING_COUNT,
+    X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -70,6 +71,31 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<GetObjectRequest> {
         &mut input.sse_customer_key_md5,
     );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+
+    if let Some(ref q) = ctx.query_strings {
+        q.assign("partNumber", &mut input.part_number)
+            .map_err(|err| invalid_request!("Invalid query: partNumber", err))?;
+        q.assign_str("response-cache-control", &mut input.response_cache_control);
+        q.assign_str(
+            "response-content-disposition",
+            &mut input.response_content_disposition,
+        );
+        q.assign_str(
+            "response-content-encoding",
+            &mut input.response_content_encoding,
+        );
+        q.assign_str(
+            "response-content-language",
+            &mut input.response_content_language,
+        );
+        q.assign_str("response-content-type", &mut input.response_content_type);
+        q.assign_str("response-expires", &mut input.response_expires);
+        q.assign_str("versionId", &mut input.version_id);
+    }
 
     Ok(input)
 }
diff --git a/src/ops/head_object.rs b/src/ops/head_object.rs
index 5731c96..7b19b04 100644
--- a/src/ops/head_object.rs
+++ b/src/ops/head_object.rs
@@ -7,10 +7,10 @@ use crate::errors::{S3Error, S3ErrorCode, S3Result};
 use crate::headers::{
     ACCEPT_RANGES, CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE,
     CONTENT_LENGTH, CONTENT_TYPE, ETAG, EXPIRES, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH,
-    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER, X_AMZ_EXPIRATION,
-    X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE,
-    X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
+    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER, X_AMZ_EXPECTED_BUCKET_OWNER,
+    X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
+    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
     X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
     X_AMZ_STORAGE_CLASS, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
@@ -70,6 +70,16 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<HeadObjectRequest> {
         &mut input.sse_customer_key_md5,
     );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+
+    if let Some(ref q) = ctx.query_strings {
+        q.assign("partNumber", &mut input.part_number)
+            .map_err(|err| invalid_request!("Invalid query: partNumber", err))?;
+        q.assign_str("versionId", &mut input.version_id);
+    }
 
     Ok(input)
 }
diff --git a/src/ops/list_objects.rs b/src/ops/list_objects.rs
index 0848309..6b74e26 100644
--- a/src/ops/list_objects.rs
+++ b/src/ops/list_objects.rs
@@ -4,7 +4,7 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 
 use crate::dto::{ListObjectsError, ListObjectsOutput, ListObjectsRequest};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
-use crate::headers::X_AMZ_REQUEST_PAYER;
+use crate::headers::{X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_PAYER};
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{ResponseExt, XmlWriterExt};
@@ -53,8 +53,12 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<ListObjectsRequest> {
         q.assign_str("prefix", &mut input.prefix);
     }
 
-    ctx.headers
-        .assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
 
     Ok(input)
 }
diff --git a/src/ops/list_objects_v2.rs b/src/ops/list_objects_v2.rs
index 82c2aee..45096a0 100644
--- a/src/ops/list_objects_v2.rs
+++ b/src/ops/list_objects_v2.rs
@@ -4,7 +4,7 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 
 use crate::dto::{ListObjectsV2Error, ListObjectsV2Output, ListObjectsV2Request};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
-use crate::headers::X_AMZ_REQUEST_PAYER;
+use crate::headers::{X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_REQUEST_PAYER};
 use crate::output::S3Output;
 use crate::storage::S3Storage;
 use crate::utils::{ResponseExt, XmlWriterExt};
@@ -61,8 +61,12 @@ fn extract(
         q.assign_str("start-after", &mut input.start_after);
     }
 
-    ctx.headers
-        .assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    let h = &ctx.headers;
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
 
     Ok(input)
 }
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index af2ba0d..ba970fc 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -6,11 +6,12 @@ use crate::dto::{PutObjectError, PutObjectOutput, PutObjectRequest};
 use crate::errors::{S3Error, S3ErrorCode, S3Result};
 use crate::headers::{
     CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE, CONTENT_LENGTH,
-    CONTENT_MD5, CONTENT_TYPE, ETAG, EXPIRES, X_AMZ_ACL, X_AMZ_EXPIRATION,
-    X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP, X_AMZ_GRANT_WRITE_ACP,
-    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
-    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
+    CONTENT_MD5, CONTENT_TYPE, ETAG, EXPIRES, X_AMZ_ACL, X_AMZ_EXPECTED_BUCKET_OWNER,
+    X_AMZ_EXPIRATION, X_AMZ_GRANT_FULL_CONTROL, X_AMZ_GRANT_READ, X_AMZ_GRANT_READ_ACP,
+    X_AMZ_GRANT_WRITE_ACP, X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE,
+    X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED, X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING,
     X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
@@ -182,6 +183,20 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
         &mut input.ssekms_encryption_context,
     );
     h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+        &mut input.bucket_key_enabled,
+    )
+    .map_err(|err| {
+        invalid_request!(
+            "Invalid header: x-amz-server-side-encryption-bucket-key-enabled",
+            err
+        )
+    })?;
     h.assign_str(X_AMZ_TAGGING, &mut input.tagging);
     h.assign_str(X_AMZ_OBJECT_LOCK_MODE, &mut input.object_lock_mode);
     h.assign_str(
diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index 7136003..bc6591c 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -5,8 +5,9 @@ use super::{wrap_internal_error, ReqContext, S3Handler};
 use crate::dto::{UploadPartError, UploadPartOutput, UploadPartRequest};
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
-    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_COPY_SOURCE, X_AMZ_REQUEST_CHARGED,
-    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
+    CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_COPY_SOURCE, X_AMZ_EXPECTED_BUCKET_OWNER,
+    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
 };
 use crate::output::S3Output;
@@ -86,6 +87,11 @@ fn extract(
         X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
         &mut input.sse_customer_key_md5,
     );
+    h.assign_str(
+        X_AMZ_EXPECTED_BUCKET_OWNER,
+        &mut input.expected_bucket_owner,
+    );
+    h.assign_str(X_AMZ_REQUEST_PAYER, &mut input.request_payer);
 
     Ok(input)
 }
-- 
2.43.0


From f62826923f56a9a8b69ead0f40d00252e0cee6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 41/51] fix: return the bucket key setting and the archive
 status of the storage

---
 src/ops/complete_multipart_upload.rs |  7 ++++++-
 src/ops/copy_object.rs               |  4 ++++
 src/ops/create_multipart_upload.rs   |  4 ++++
 src/ops/get_object.rs                |  5 +++++
 src/ops/head_object.rs               | 21 ++++++++++++++-------
 src/ops/put_object.rs                |  4 ++++
 src/ops/upload_part.rs               |  9 +++++++--
 7 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/ops/complete_multipart_upload.rs b/src/ops/complete_multipart_upload.rs
index d53f5dc..2eea5a8 100644
--- a/src/ops/complete_multipart_upload.rs
+++ b/src/ops/complete_multipart_upload.rs
@@ -9,7 +9,8 @@ use crate::dto::{
 use crate::errors::{S3Error, S3Result};
 use crate::headers::{
     X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER,
-    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_VERSION_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED, X_AMZ_VERSION_ID,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -88,6 +89,10 @@ impl S3Output for CompleteMultipartUploadOutput {
                 self.ssekms_key_id,
             )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
 
             let location = self.location;
             let bucket = self.bucket;
diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 274f1fe..9d230d2 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -210,6 +210,10 @@ impl S3Output for CopyObjectOutput {
                 self.ssekms_encryption_context,
             )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
 
             let copy_object_result = self.copy_object_result;
 
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 02b8d3d..1e3480c 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -79,6 +79,10 @@ impl S3Output for CreateMultipartUploadOutput {
             )?;
 
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
 
             let bucket = self.bucket;
             let key = self.key;
diff --git a/src/ops/get_object.rs b/src/ops/get_object.rs
index 8aa515e..63c0ff1 100644
--- a/src/ops/get_object.rs
+++ b/src/ops/get_object.rs
@@ -12,6 +12,7 @@ use crate::headers::{
     X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
     X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE,
     X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
     X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_TAGGING_COUNT,
     X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
@@ -159,6 +160,10 @@ impl S3Output for GetObjectOutput {
 
             res.set_optional_header(X_AMZ_STORAGE_CLASS, self.storage_class)?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             res.set_optional_header(X_AMZ_REPLICATION_STATUS, self.replication_status)?;
             res.set_optional_header(
                 X_AMZ_MP_PARTS_COUNT,
diff --git a/src/ops/head_object.rs b/src/ops/head_object.rs
index 7b19b04..c645092 100644
--- a/src/ops/head_object.rs
+++ b/src/ops/head_object.rs
@@ -7,13 +7,15 @@ use crate::errors::{S3Error, S3ErrorCode, S3Result};
 use crate::headers::{
     ACCEPT_RANGES, CACHE_CONTROL, CONTENT_DISPOSITION, CONTENT_ENCODING, CONTENT_LANGUAGE,
     CONTENT_LENGTH, CONTENT_TYPE, ETAG, EXPIRES, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH,
-    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_DELETE_MARKER, X_AMZ_EXPECTED_BUCKET_OWNER,
-    X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT, X_AMZ_OBJECT_LOCK_LEGAL_HOLD,
-    X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE, X_AMZ_REPLICATION_STATUS,
-    X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
-    X_AMZ_STORAGE_CLASS, X_AMZ_VERSION_ID, X_AMZ_WEBSITE_REDIRECT_LOCATION,
+    IF_UNMODIFIED_SINCE, LAST_MODIFIED, RANGE, X_AMZ_ARCHIVE_STATUS, X_AMZ_DELETE_MARKER,
+    X_AMZ_EXPECTED_BUCKET_OWNER, X_AMZ_EXPIRATION, X_AMZ_MISSING_META, X_AMZ_MP_PARTS_COUNT,
+    X_AMZ_OBJECT_LOCK_LEGAL_HOLD, X_AMZ_OBJECT_LOCK_MODE, X_AMZ_OBJECT_LOCK_RETAIN_UNTIL_DATE,
+    X_AMZ_REPLICATION_STATUS, X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_RESTORE,
+    X_AMZ_SERVER_SIDE_ENCRYPTION, X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5, X_AMZ_STORAGE_CLASS, X_AMZ_VERSION_ID,
+    X_AMZ_WEBSITE_REDIRECT_LOCATION,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -139,6 +141,11 @@ impl S3Output for HeadObjectOutput {
 
             res.set_optional_header(X_AMZ_STORAGE_CLASS, self.storage_class)?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
+            res.set_optional_header(X_AMZ_ARCHIVE_STATUS, self.archive_status)?;
             res.set_optional_header(X_AMZ_REPLICATION_STATUS, self.replication_status)?;
             res.set_optional_header(
                 X_AMZ_MP_PARTS_COUNT,
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index ba970fc..c42d244 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -251,6 +251,10 @@ impl S3Output for PutObjectOutput {
                 self.ssekms_encryption_context,
             )?;
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
             Ok(())
         })
     }
diff --git a/src/ops/upload_part.rs b/src/ops/upload_part.rs
index bc6591c..bcac903 100644
--- a/src/ops/upload_part.rs
+++ b/src/ops/upload_part.rs
@@ -7,8 +7,9 @@ use crate::errors::{S3Error, S3Result};
 use crate::headers::{
     CONTENT_LENGTH, CONTENT_MD5, ETAG, X_AMZ_COPY_SOURCE, X_AMZ_EXPECTED_BUCKET_OWNER,
     X_AMZ_REQUEST_CHARGED, X_AMZ_REQUEST_PAYER, X_AMZ_SERVER_SIDE_ENCRYPTION,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM,
-    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID, X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM, X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY,
+    X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5,
 };
 use crate::output::S3Output;
 use crate::storage::S3Storage;
@@ -116,6 +117,10 @@ impl S3Output for UploadPartOutput {
             )?;
 
             res.set_optional_header(X_AMZ_REQUEST_CHARGED, self.request_charged)?;
+            res.set_optional_header(
+                X_AMZ_SERVER_SIDE_ENCRYPTION_BUCKET_KEY_ENABLED,
+                self.bucket_key_enabled.map(|b| b.to_string()),
+            )?;
 
             Ok(())
         })
-- 
2.43.0


From e6921b8d50325a59f0a224963423f913cd2b06f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 42/51] fix: ObjectNotInActiveTierError is an error, not a
 success

---
 src/errors.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index fbf9e47..13cdcc8 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -615,7 +615,7 @@ impl S3ErrorCode {
             Self::NotImplemented => Some(StatusCode::NOT_IMPLEMENTED),
             Self::NotSignedUp => Some(StatusCode::FORBIDDEN),
             Self::NotSupported => None,
-            Self::ObjectNotInActiveTierError => Some(StatusCode::OK),
+            Self::ObjectNotInActiveTierError => Some(StatusCode::FORBIDDEN),
             Self::OperationAborted => Some(StatusCode::CONFLICT),
             Self::PermanentRedirect => Some(StatusCode::MOVED_PERMANENTLY),
             Self::PreconditionFailed => Some(StatusCode::PRECONDITION_FAILED),
-- 
2.43.0


From 7358b6b11e78fe3de971c3110a0b515b9b6bd664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 43/51] fix: pass the fields of a form to the storage

The headers and the encryption settings which a form names were dropped.
---
 src/ops/put_object.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index c42d244..30ba61c 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -64,10 +64,41 @@ impl S3Handler for Handler {
 /// extract from multipart
 fn extract_from_multipart(input: &mut PutObjectRequest, mut multipart: Multipart) -> S3Result<()> {
     multipart.assign_str("acl", &mut input.acl);
+    multipart.assign_str("cache-control", &mut input.cache_control);
+    multipart.assign_str("content-disposition", &mut input.content_disposition);
+    multipart.assign_str("content-encoding", &mut input.content_encoding);
     multipart.assign_str("content-type", &mut input.content_type);
     multipart.assign_str("expires", &mut input.expires);
     multipart.assign_str("tagging", &mut input.tagging);
     multipart.assign_str("x-amz-storage-class", &mut input.storage_class);
+    multipart.assign_str(
+        X_AMZ_WEBSITE_REDIRECT_LOCATION.as_str(),
+        &mut input.website_redirect_location,
+    );
+    multipart.assign_str(
+        X_AMZ_SERVER_SIDE_ENCRYPTION.as_str(),
+        &mut input.server_side_encryption,
+    );
+    multipart.assign_str(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_AWS_KMS_KEY_ID.as_str(),
+        &mut input.ssekms_key_id,
+    );
+    multipart.assign_str(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_CONTEXT.as_str(),
+        &mut input.ssekms_encryption_context,
+    );
+    multipart.assign_str(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_ALGORITHM.as_str(),
+        &mut input.sse_customer_algorithm,
+    );
+    multipart.assign_str(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY.as_str(),
+        &mut input.sse_customer_key,
+    );
+    multipart.assign_str(
+        X_AMZ_SERVER_SIDE_ENCRYPTION_CUSTOMER_KEY_MD5.as_str(),
+        &mut input.sse_customer_key_md5,
+    );
 
     let mut metadata: HashMap<String, String> = HashMap::new();
     for &mut (ref mut name, ref mut value) in &mut multipart.fields {
-- 
2.43.0


From 5eb526ead0dffe3168f01ef5063c515d5977fb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 44/51] fix: repeated metadata headers keep all their values

---
 src/ops/copy_object.rs             | 9 ++++++++-
 src/ops/create_multipart_upload.rs | 9 ++++++++-
 src/ops/put_object.rs              | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/ops/copy_object.rs b/src/ops/copy_object.rs
index 9d230d2..3dea7ad 100644
--- a/src/ops/copy_object.rs
+++ b/src/ops/copy_object.rs
@@ -174,7 +174,14 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CopyObjectRequest> {
         if name.starts_with(meta_prefix) {
             let (_, meta_key) = name.split_at(meta_prefix.len());
             if !meta_key.is_empty() {
-                let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());
+                // a repeated header has all the values, separated by commas
+                let _value = metadata
+                    .entry(meta_key.to_owned())
+                    .and_modify(|v| {
+                        v.push(',');
+                        v.push_str(value);
+                    })
+                    .or_insert_with(|| value.to_owned());
             }
         }
     }
diff --git a/src/ops/create_multipart_upload.rs b/src/ops/create_multipart_upload.rs
index 1e3480c..b50cccd 100644
--- a/src/ops/create_multipart_upload.rs
+++ b/src/ops/create_multipart_upload.rs
@@ -185,7 +185,14 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<CreateMultipartUploadRequest> {
         if name.starts_with(meta_prefix) {
             let (_, meta_key) = name.split_at(meta_prefix.len());
             if !meta_key.is_empty() {
-                let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());
+                // a repeated header has all the values, separated by commas
+                let _value = metadata
+                    .entry(meta_key.to_owned())
+                    .and_modify(|v| {
+                        v.push(',');
+                        v.push_str(value);
+                    })
+                    .or_insert_with(|| value.to_owned());
             }
         }
     }
diff --git a/src/ops/put_object.rs b/src/ops/put_object.rs
index 30ba61c..7c5a391 100644
--- a/src/ops/put_object.rs
+++ b/src/ops/put_object.rs
@@ -245,7 +245,14 @@ fn extract(ctx: &mut ReqContext<'_>) -> S3Result<PutObjectRequest> {
         if name.starts_with(meta_prefix) {
             let (_, meta_key) = name.split_at(meta_prefix.len());
             if !meta_key.is_empty() {
-                let _prev = metadata.insert(meta_key.to_owned(), value.to_owned());
+                // a repeated header has all the values, separated by commas
+                let _value = metadata
+                    .entry(meta_key.to_owned())
+                    .and_modify(|v| {
+                        v.push(',');
+                        v.push_str(value);
+                    })
+                    .or_insert_with(|| value.to_owned());
             }
         }
     }
-- 
2.43.0


From ff30cd30a4de5d1cf89ceb939d10c41af53fb9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 45/51] fix: listing buckets does not fail on a bucket that is
 deleted meanwhile

---
 src/storages/fs.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 47795d7..0764d80 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -47,7 +47,7 @@ pub struct FileSystem {
     /// root path
     root: PathBuf,
 
-    /// held while the files of an object are looked up or replaced
+    /// held while buckets and the files of objects are looked up or changed
     commit_lock: Mutex<()>,
 }
 
@@ -441,6 +441,8 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<CreateBucketOutput, CreateBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
+        let _guard = self.commit_lock.lock().await;
+
         match async_fs::create_dir(&path).await {
             Ok(()) => {}
             Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
@@ -794,6 +796,9 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<ListBucketsOutput, ListBucketsError> {
         let mut buckets = Vec::new();
 
+        // NOTE: a listing must not miss or fail on buckets which are changed meanwhile
+        let _guard = self.commit_lock.lock().await;
+
         let mut iter = trace_try!(async_fs::read_dir(&self.root).await);
         while let Some(entry) = iter.next().await {
             let entry = trace_try!(entry);
-- 
2.43.0


From a6e18372f867166994b92bd1d0b8e39827f7cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 46/51] fix: an upload completed meanwhile is reported as
 NoSuchUpload

---
 src/storages/fs.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 0764d80..c28b687 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -294,13 +294,16 @@ impl FileSystem {
         // NOTE: the upload id is used in file names
         let uuid = upload_id.parse::<Uuid>().ok();
         if let Some(uuid) = uuid.filter(|uuid| uuid.to_string() == upload_id) {
-            let path = self.get_upload_path(&uuid);
-            if path.exists() {
-                let content = trace_try!(std::fs::read(&path));
-                let info: UploadInfo = trace_try!(serde_json::from_slice(&content));
-                if info.bucket == bucket && info.key == key {
-                    return Ok((uuid, info));
+            // NOTE: the upload may be completed by another request at any time
+            match std::fs::read(self.get_upload_path(&uuid)) {
+                Ok(content) => {
+                    let info: UploadInfo = trace_try!(serde_json::from_slice(&content));
+                    if info.bucket == bucket && info.key == key {
+                        return Ok((uuid, info));
+                    }
                 }
+                Err(err) if err.kind() == io::ErrorKind::NotFound => {}
+                Err(err) => return Err(internal_error!(err)),
             }
         }
         Err(code_error!(
@@ -1207,10 +1210,15 @@ impl S3Storage for FileSystem {
 
             let invalid_part =
                 || code_error!(InvalidPart, "One or more of the specified parts could not be found.");
-            if !part_path.exists() {
-                return Err(invalid_part().into());
-            }
-            let mut reader = trace_try!(File::open(&part_path).await);
+            let mut reader = match File::open(&part_path).await {
+                Ok(reader) => reader,
+                Err(err) if err.kind() == io::ErrorKind::NotFound => {
+                    // the parts are removed when the upload is completed by another request
+                    let _ = self.find_upload(&bucket, &key, &upload_id)?;
+                    return Err(invalid_part().into());
+                }
+                Err(err) => return Err(internal_error!(err).into()),
+            };
             let part_md5_sum = trace_try!(Self::get_file_md5_sum(&mut reader).await);
             if let Some(e_tag) = part.e_tag {
                 if e_tag.trim_matches('"') != part_md5_sum {
-- 
2.43.0


From be136efa14d19f4122fcad877e62f0ce19d1fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 47/51] fix: a failed lookup of a file is not reported as a
 missing object

---
 src/storages/fs.rs | 52 ++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index c28b687..00be98a 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -124,9 +124,22 @@ impl FileSystem {
         Ok(ans)
     }
 
+    /// look up a file, which is missing only if that is certain
+    fn find_file(path: &Path) -> io::Result<Option<std::fs::Metadata>> {
+        match std::fs::metadata(path) {
+            Ok(metadata) => Ok(Some(metadata)),
+            Err(err) if err.kind() == io::ErrorKind::NotFound => Ok(None),
+            // there is no file with a name that is too long or below another file
+            Err(_) if path.iter().any(|name| name.len() > 255) => Ok(None),
+            Err(_) if path.ancestors().skip(1).any(Path::is_file) => Ok(None),
+            Err(err) => Err(err),
+        }
+    }
+
     /// check that a bucket exists
     fn check_bucket(&self, bucket: &str) -> S3Result<()> {
-        if trace_try!(self.get_bucket_path(bucket)).is_dir() {
+        let path = trace_try!(self.get_bucket_path(bucket));
+        if trace_try!(Self::find_file(&path)).map_or(false, |m| m.is_dir()) {
             return Ok(());
         }
         Err(code_error!(
@@ -171,14 +184,13 @@ impl FileSystem {
         key: &str,
     ) -> io::Result<Option<HashMap<String, String>>> {
         let path = self.get_metadata_path(bucket, key)?;
-        if path.exists() {
-            let content = std::fs::read(&path)?;
-            let map = serde_json::from_slice(&content)
-                .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-            Ok(Some(map))
-        } else {
-            Ok(None)
+        if Self::find_file(&path)?.is_none() {
+            return Ok(None);
         }
+        let content = std::fs::read(&path)?;
+        let map = serde_json::from_slice(&content)
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+        Ok(Some(map))
     }
 
     /// save metadata, or remove the saved metadata if there is none
@@ -191,8 +203,8 @@ impl FileSystem {
         let path = self.get_metadata_path(bucket, key)?;
         let metadata = match metadata {
             Some(m) => m,
-            None if path.exists() => return std::fs::remove_file(&path),
-            None => return Ok(()),
+            None if Self::find_file(&path)?.is_none() => return Ok(()),
+            None => return std::fs::remove_file(&path),
         };
         let content = serde_json::to_vec(metadata)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
@@ -260,7 +272,7 @@ impl FileSystem {
             if path.is_dir() && trace_try!(std::fs::read_dir(&path)).next().is_none() {
                 trace_try!(std::fs::remove_dir(&path));
             }
-        } else if path.is_file() {
+        } else if trace_try!(Self::find_file(&path)).map_or(false, |m| m.is_file()) {
             trace_try!(std::fs::remove_file(&path));
             // NOTE: the object is gone, and the next object with this key has its own metadata
             if let Err(err) = self.save_metadata(bucket, key, None) {
@@ -498,7 +510,8 @@ impl S3Storage for FileSystem {
         let guard = self.commit_lock.lock().await;
 
         self.check_bucket(bucket)?;
-        let src_exists = src_path.is_file() && !key.ends_with('/');
+        let src_metadata = trace_try!(Self::find_file(&src_path));
+        let src_exists = src_metadata.map_or(false, |m| m.is_file()) && !key.ends_with('/');
         if !src_exists {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
@@ -623,7 +636,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<GetBucketLocationOutput, GetBucketLocationError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if !path.exists() {
+        if trace_try!(Self::find_file(&path)).is_none() {
             let err = code_error!(NoSuchBucket, "NotFound");
             return Err(err.into());
         }
@@ -654,6 +667,9 @@ impl S3Storage for FileSystem {
             Ok(file) => file,
             Err(e) => {
                 error!(error = %e, "GetObject: open file");
+                if trace_try!(Self::find_file(&object_path)).is_some() {
+                    return Err(internal_error!(e).into());
+                }
                 let err = code_error!(NoSuchKey, "The specified key does not exist.");
                 return Err(err.into());
             }
@@ -748,7 +764,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<HeadBucketOutput, HeadBucketError> {
         let path = trace_try!(self.get_bucket_path(&input.bucket));
 
-        if !path.exists() {
+        if trace_try!(Self::find_file(&path)).is_none() {
             let err = code_error!(NoSuchBucket, "The specified bucket does not exist.");
             return Err(err.into());
         }
@@ -765,12 +781,12 @@ impl S3Storage for FileSystem {
 
         let _guard = self.commit_lock.lock().await;
 
-        if !path.exists() {
+        let file_metadata = if let Some(file_metadata) = trace_try!(Self::find_file(&path)) {
+            file_metadata
+        } else {
             let err = code_error!(NoSuchKey, "The specified key does not exist.");
             return Err(err.into());
-        }
-
-        let file_metadata = trace_try!(async_fs::metadata(path).await);
+        };
         let last_modified = time::to_rfc3339(trace_try!(file_metadata.modified()));
 
         let is_dir = file_metadata.is_dir();
-- 
2.43.0


From 3e4add5bdfcfd090379fa3bef0c303ca9e9d99ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:13 +0000
Subject: [PATCH 48/51] fix: an object, its metadata and its upload change
 together

---
 src/storages/fs.rs | 175 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 140 insertions(+), 35 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 00be98a..47d35e5 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -30,7 +30,7 @@ use std::io::{self, SeekFrom};
 use std::path::{Path, PathBuf};
 
 use futures::io::{AsyncReadExt, AsyncSeekExt, AsyncWrite, AsyncWriteExt, BufWriter};
-use futures::lock::Mutex;
+use futures::lock::{Mutex, MutexGuard};
 use futures::stream::{Stream, StreamExt, TryStreamExt};
 use hyper::body::Bytes;
 use md5::{Digest, Md5};
@@ -62,6 +62,22 @@ struct UploadInfo {
     metadata: Option<HashMap<String, String>>,
 }
 
+/// A replacement of an object, its metadata and its upload.
+/// It is saved before the object is renamed, and completed if the object has been renamed.
+#[derive(Debug, Serialize, Deserialize)]
+struct Commit {
+    /// bucket
+    bucket: String,
+    /// key
+    key: String,
+    /// metadata of the object
+    metadata: Option<HashMap<String, String>>,
+    /// multipart upload which is completed
+    upload_id: Option<String>,
+    /// name of the temporary file which is renamed
+    temp: String,
+}
+
 /// A temporary file which is removed on drop unless it has been persisted
 #[derive(Debug)]
 struct TempFile {
@@ -73,7 +89,7 @@ struct TempFile {
 
 impl TempFile {
     /// rename the temporary file to its final path
-    fn persist(mut self, path: &Path) -> io::Result<()> {
+    fn persist(&mut self, path: &Path) -> io::Result<()> {
         std::fs::rename(&self.path, path)?;
         self.persisted = true;
         Ok(())
@@ -94,10 +110,12 @@ impl FileSystem {
     /// Returns an `Err` if current working directory is invalid or `root` doesn't exist
     pub fn new(root: impl AsRef<Path>) -> io::Result<Self> {
         let root = env::current_dir()?.join(root).canonicalize()?;
-        Ok(Self {
+        let this = Self {
             root,
             commit_lock: Mutex::new(()),
-        })
+        };
+        this.recover_commit()?;
+        Ok(this)
     }
 
     /// resolve object path under the virtual root
@@ -206,11 +224,16 @@ impl FileSystem {
             None if Self::find_file(&path)?.is_none() => return Ok(()),
             None => return std::fs::remove_file(&path),
         };
-        let content = serde_json::to_vec(metadata)
+        self.write_json(&path, metadata)
+    }
+
+    /// atomically write a value to a file
+    fn write_json<T: Serialize>(&self, path: &Path, value: &T) -> io::Result<()> {
+        let content = serde_json::to_vec(value)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-        let temp = self.get_temp_file();
+        let mut temp = self.get_temp_file();
         std::fs::write(&temp.path, &content)?;
-        temp.persist(&path)
+        temp.persist(path)
     }
 
     /// get an unused path for a temporary file under the root
@@ -231,18 +254,19 @@ impl FileSystem {
         metadata: Option<&HashMap<String, String>>,
     ) -> S3Result<()> {
         // NOTE: there is no await point below, so that a dropped request can not be half committed
-        let _guard = self.commit_lock.lock().await;
-        self.replace_object(bucket, key, object_path, temp, metadata)
+        let _guard = self.lock_objects().await?;
+        self.replace_object(bucket, key, object_path, temp, metadata, None)
     }
 
-    /// replace an object by a temporary file, `commit_lock` must be held
+    /// replace an object by a temporary file and end its upload, `commit_lock` must be held
     fn replace_object(
         &self,
         bucket: &str,
         key: &str,
         object_path: &Path,
-        temp: TempFile,
+        mut temp: TempFile,
         metadata: Option<&HashMap<String, String>>,
+        upload_id: Option<&str>,
     ) -> S3Result<()> {
         self.check_bucket(bucket)?;
 
@@ -257,14 +281,98 @@ impl FileSystem {
             trace_try!(std::fs::remove_dir_all(object_path));
         }
         let prev_metadata = trace_try!(self.load_metadata(bucket, key));
-        trace_try!(self.save_metadata(bucket, key, metadata));
+        if prev_metadata.as_ref() == metadata && upload_id.is_none() {
+            trace_try!(temp.persist(object_path));
+            return Ok(());
+        }
+
+        let metadata_path = trace_try!(self.get_metadata_path(bucket, key));
+        if metadata.is_some() && metadata_path.iter().any(|name| name.len() > 255) {
+            return Err(invalid_request!(
+                "The key is too long to store metadata with the object."
+            ));
+        }
+
+        let commit = Commit {
+            bucket: bucket.to_owned(),
+            key: key.to_owned(),
+            metadata: metadata.cloned(),
+            upload_id: upload_id.map(ToOwned::to_owned),
+            temp: temp.path.file_name().map_or_else(String::new, |name| {
+                name.to_string_lossy().into_owned()
+            }),
+        };
+        let commit_path = self.get_commit_path();
+        trace_try!(self.write_json(&commit_path, &commit));
         if let Err(err) = temp.persist(object_path) {
-            trace_try!(self.save_metadata(bucket, key, prev_metadata.as_ref()));
+            if let Err(e) = std::fs::remove_file(&commit_path) {
+                error!(error = %e, "discard commit");
+                // NOTE: the commit is discarded later because of this file
+                temp.persisted = true;
+            }
             return Err(internal_error!(err));
         }
+        // NOTE: the object is replaced, and the rest is done at the latest by the next request
+        if let Err(err) = self.finish_commit(&commit) {
+            error!(error = %err, "finish commit");
+        }
         Ok(())
     }
 
+    /// lock the objects, `commit_lock` is held until the guard is dropped
+    async fn lock_objects(&self) -> S3Result<MutexGuard<'_, ()>> {
+        let guard = self.commit_lock.lock().await;
+        trace_try!(self.recover_commit());
+        Ok(guard)
+    }
+
+    /// resolve the path of the file that describes the current commit
+    fn get_commit_path(&self) -> PathBuf {
+        self.root.join(".commit.json")
+    }
+
+    /// finish or discard an interrupted commit
+    fn recover_commit(&self) -> io::Result<()> {
+        let commit_path = self.get_commit_path();
+        let content = match std::fs::read(&commit_path) {
+            Ok(content) => content,
+            Err(err) if err.kind() == io::ErrorKind::NotFound => return Ok(()),
+            Err(err) => return Err(err),
+        };
+        let commit: Commit = serde_json::from_slice(&content)
+            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
+
+        let temp = TempFile {
+            path: self.root.join(&commit.temp),
+            persisted: true,
+        };
+        if Self::find_file(&temp.path)?.is_none() {
+            return self.finish_commit(&commit);
+        }
+        // the object has not been replaced
+        std::fs::remove_file(&commit_path)?;
+        std::fs::remove_file(&temp.path)
+    }
+
+    /// save the metadata of a replaced object and end its upload
+    fn finish_commit(&self, commit: &Commit) -> io::Result<()> {
+        let Commit {
+            ref bucket,
+            ref key,
+            ref metadata,
+            ref upload_id,
+            ..
+        } = *commit;
+        self.save_metadata(bucket, key, metadata.as_ref())?;
+        if let Some(ref upload_id) = *upload_id {
+            let upload_path = self.get_upload_path(upload_id);
+            if Self::find_file(&upload_path)?.is_some() {
+                std::fs::remove_file(&upload_path)?;
+            }
+        }
+        std::fs::remove_file(self.get_commit_path())
+    }
+
     /// remove an object if it exists, `commit_lock` must be held
     fn remove_object(&self, bucket: &str, key: &str) -> S3Result<()> {
         let path = self.get_object_path(bucket, key)?;
@@ -283,17 +391,13 @@ impl FileSystem {
     }
 
     /// resolve the path of the file that describes a multipart upload
-    fn get_upload_path(&self, upload_id: &Uuid) -> PathBuf {
+    fn get_upload_path(&self, upload_id: &str) -> PathBuf {
         self.root.join(format!(".upload_id-{}.json", upload_id))
     }
 
     /// save information about a new multipart upload
     fn save_upload(&self, upload_id: &Uuid, info: &UploadInfo) -> io::Result<()> {
-        let content = serde_json::to_vec(info)
-            .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e))?;
-        let temp = self.get_temp_file();
-        std::fs::write(&temp.path, &content)?;
-        temp.persist(&self.get_upload_path(upload_id))
+        self.write_json(&self.get_upload_path(&upload_id.to_string()), info)
     }
 
     /// find the multipart upload which was created for a bucket and a key
@@ -307,7 +411,7 @@ impl FileSystem {
         let uuid = upload_id.parse::<Uuid>().ok();
         if let Some(uuid) = uuid.filter(|uuid| uuid.to_string() == upload_id) {
             // NOTE: the upload may be completed by another request at any time
-            match std::fs::read(self.get_upload_path(&uuid)) {
+            match std::fs::read(self.get_upload_path(upload_id)) {
                 Ok(content) => {
                     let info: UploadInfo = trace_try!(serde_json::from_slice(&content));
                     if info.bucket == bucket && info.key == key {
@@ -507,7 +611,7 @@ impl S3Storage for FileSystem {
         };
 
         // NOTE: content and metadata must belong to the same version of the source
-        let guard = self.commit_lock.lock().await;
+        let guard = self.lock_objects().await?;
 
         self.check_bucket(bucket)?;
         let src_metadata = trace_try!(Self::find_file(&src_path));
@@ -581,7 +685,7 @@ impl S3Storage for FileSystem {
         &self,
         input: DeleteObjectRequest,
     ) -> S3StorageResult<DeleteObjectOutput, DeleteObjectError> {
-        let _guard = self.commit_lock.lock().await;
+        let _guard = self.lock_objects().await?;
 
         self.check_bucket(&input.bucket)?;
         self.remove_object(&input.bucket, &input.key)?;
@@ -597,7 +701,7 @@ impl S3Storage for FileSystem {
         let mut deleted: Vec<DeletedObject> = Vec::new();
         let mut errors: Vec<dto::S3Error> = Vec::new();
 
-        let _guard = self.commit_lock.lock().await;
+        let _guard = self.lock_objects().await?;
 
         self.check_bucket(&input.bucket)?;
         for object in input.delete.objects {
@@ -661,7 +765,7 @@ impl S3Storage for FileSystem {
         let range: Option<Range> = input.range.as_deref().map(parse_range).transpose()?;
 
         // NOTE: content and metadata must belong to the same version of the object
-        let guard = self.commit_lock.lock().await;
+        let guard = self.lock_objects().await?;
 
         let mut file = match File::open(&object_path).await {
             Ok(file) => file,
@@ -779,7 +883,7 @@ impl S3Storage for FileSystem {
     ) -> S3StorageResult<HeadObjectOutput, HeadObjectError> {
         let path = self.get_object_path(&input.bucket, &input.key)?;
 
-        let _guard = self.commit_lock.lock().await;
+        let _guard = self.lock_objects().await?;
 
         let file_metadata = if let Some(file_metadata) = trace_try!(Self::find_file(&path)) {
             file_metadata
@@ -1145,7 +1249,7 @@ impl S3Storage for FileSystem {
         let mut md5_hash = Md5::new();
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
-        let temp = self.get_temp_file();
+        let mut temp = self.get_temp_file();
         let file = trace_try!(File::create(&temp.path).await);
         let mut writer = BufWriter::new(file);
 
@@ -1165,7 +1269,7 @@ impl S3Storage for FileSystem {
 
         drop(writer);
         {
-            let _guard = self.commit_lock.lock().await;
+            let _guard = self.lock_objects().await?;
             let _ = self.find_upload(&bucket, &key, &upload_id)?;
             trace_try!(temp.persist(&file_path));
         }
@@ -1271,18 +1375,19 @@ impl S3Storage for FileSystem {
 
         {
             // NOTE: there is no await point below, see `commit_object`
-            let _guard = self.commit_lock.lock().await;
+            let _guard = self.lock_objects().await?;
 
             // the upload is over if and only if the object is replaced
             let _ = self.find_upload(&bucket, &key, &upload_id)?;
-            let upload_path = self.get_upload_path(&uuid);
-            let upload = self.get_temp_file();
-            trace_try!(std::fs::rename(&upload_path, &upload.path));
             let metadata = info.metadata.as_ref();
-            if let Err(err) = self.replace_object(&bucket, &key, &object_path, temp, metadata) {
-                trace_try!(upload.persist(&upload_path));
-                return Err(err.into());
-            }
+            self.replace_object(
+                &bucket,
+                &key,
+                &object_path,
+                temp,
+                metadata,
+                Some(&upload_id),
+            )?;
             if let Err(err) = self.remove_parts(&uuid) {
                 error!(error = %err, "CompleteMultipartUpload: remove parts");
             }
-- 
2.43.0


From ce7dd32cd105922b311dec6e0715c4e9f09d315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 49/51] fix: accept a form whose file part names no content
 type

---
 src/streams/multipart.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index 3f88bf2..c9eee59 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -200,7 +200,8 @@ where
             }
             Some(filename) => {
                 let content_type = match content_type_bytes.map(std::str::from_utf8) {
-                    None => return Err((body, pat)),
+                    // RFC 7578, section 4.4
+                    None => "text/plain",
                     Some(Err(_)) => return Ok(Err(generate_format_error())),
                     Some(Ok(s)) => s,
                 };
-- 
2.43.0


From ce89e8fd8929883d766b5f3d3b08832168c9148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:52 +0000
Subject: [PATCH 50/51] fix: accept form parts with further headers

---
 src/streams/multipart.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/streams/multipart.rs b/src/streams/multipart.rs
index c9eee59..f27a6fb 100644
--- a/src/streams/multipart.rs
+++ b/src/streams/multipart.rs
@@ -155,7 +155,7 @@ where
         }
     };
 
-    let mut headers = [httparse::EMPTY_HEADER; 2];
+    let mut headers = [httparse::EMPTY_HEADER; 16];
     loop {
         let (idx, parsed_headers) = match httparse::parse_headers(lines.slice, &mut headers) {
             Ok(httparse::Status::Complete(ans)) => ans,
-- 
2.43.0


From 953959824f6654a7651aa3e735901c6dbbb2dec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:29 +0000
Subject: [PATCH 51/51] fix: leave no temporary file when an upload is
 abandoned while the file is created

---
 src/storages/fs.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/storages/fs.rs b/src/storages/fs.rs
index 47d35e5..e184233 100644
--- a/src/storages/fs.rs
+++ b/src/storages/fs.rs
@@ -88,6 +88,12 @@ struct TempFile {
 }
 
 impl TempFile {
+    /// create the temporary file
+    // NOTE: this does not wait, so that the file can not be created after it has been dropped
+    fn create(&self) -> io::Result<File> {
+        std::fs::File::create(&self.path).map(File::from)
+    }
+
     /// rename the temporary file to its final path
     fn persist(&mut self, path: &Path) -> io::Result<()> {
         std::fs::rename(&self.path, path)?;
@@ -630,7 +636,7 @@ impl S3Storage for FileSystem {
         drop(guard);
 
         let temp = self.get_temp_file();
-        let mut writer = trace_try!(File::create(&temp.path).await);
+        let mut writer = trace_try!(temp.create());
         let _ = trace_try!(futures::io::copy(&mut reader, &mut writer).await);
         drop(writer);
 
@@ -1155,7 +1161,7 @@ impl S3Storage for FileSystem {
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
         let temp = self.get_temp_file();
-        let file = trace_try!(File::create(&temp.path).await);
+        let file = trace_try!(temp.create());
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
@@ -1250,7 +1256,7 @@ impl S3Storage for FileSystem {
         let stream = body.inspect_ok(|bytes| md5_hash.update(bytes.as_ref()));
 
         let mut temp = self.get_temp_file();
-        let file = trace_try!(File::create(&temp.path).await);
+        let file = trace_try!(temp.create());
         let mut writer = BufWriter::new(file);
 
         let (ret, duration) = time::count_duration(copy_bytes(stream, &mut writer)).await;
@@ -1308,7 +1314,7 @@ impl S3Storage for FileSystem {
 
         let object_path = self.get_object_path(&bucket, &key)?;
         let temp = self.get_temp_file();
-        let file = trace_try!(File::create(&temp.path).await);
+        let file = trace_try!(temp.create());
         let mut writer = BufWriter::new(file);
 
         let mut prev_part_number: i64 = 0;
-- 
2.43.0

