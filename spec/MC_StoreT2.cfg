SPECIFICATION Spec
CONSTANTS
  KeyBytes <- MCKeyBytes
  SegLen <- MCSegLen
  Names <- T2Names
  Buckets <- T2Buckets
  Metas <- T2Metas
  Contents <- T2Contents
  Pfxs <- T2Prefixes
  Ups <- T2Ups
  UpKeys <- T2UpKeys
  CopyTo <- T2CopyTo
  Many <- T2Many
  Without <- T2Without
  Emit = FALSE
INVARIANTS TypeOK RightAnswers Frame RefusedChangesNothing Written ReadsArePure BucketLife NeedsBucket Completed OwnUploads ForeignIds Reads Copied Deleted Views Sensitive
CHECK_DEADLOCK FALSE
