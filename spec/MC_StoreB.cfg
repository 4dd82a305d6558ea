SPECIFICATION Spec
CONSTANTS
  KeyBytes <- MCKeyBytes
  SegLen <- MCSegLen
  Names <- BNames
  Buckets <- BBuckets
  Metas <- BMetas
  Contents <- BContents
  Pfxs <- BPrefixes
  Ups <- BUps
  UpKeys <- BUpKeys
  CopyTo <- BCopyTo
  Many <- BMany
  Without <- BWithout
  Emit = FALSE
INVARIANTS TypeOK RightAnswers Frame RefusedChangesNothing Written ReadsArePure BucketLife NeedsBucket Completed OwnUploads ForeignIds Reads Copied Deleted Views Sensitive
CHECK_DEADLOCK FALSE
