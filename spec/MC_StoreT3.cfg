SPECIFICATION Spec
CONSTANTS
  KeyBytes <- MCKeyBytes
  SegLen <- MCSegLen
  Names <- T3Names
  Buckets <- T3Buckets
  Metas <- T3Metas
  Contents <- T3Contents
  Pfxs <- T3Prefixes
  Ups <- T3Ups
  UpKeys <- T3UpKeys
  CopyTo <- T3CopyTo
  Many <- T3Many
  Without <- T3Without
  Emit = FALSE
INVARIANTS TypeOK RightAnswers Frame RefusedChangesNothing Written ReadsArePure BucketLife NeedsBucket Completed OwnUploads ForeignIds Reads Copied Deleted Views Sensitive
CHECK_DEADLOCK FALSE
