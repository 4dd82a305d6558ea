SPECIFICATION Spec
CONSTANTS
  KeyBytes <- MCKeyBytes
  SegLen <- MCSegLen
  Names <- T4Names
  Buckets <- T4Buckets
  Metas <- T4Metas
  Contents <- T4Contents
  Pfxs <- T4Prefixes
  Ups <- T4Ups
  UpKeys <- T4UpKeys
  CopyTo <- T4CopyTo
  Many <- T4Many
  Without <- T4Without
  Emit = FALSE
INVARIANTS TypeOK RightAnswers Frame RefusedChangesNothing Written ReadsArePure BucketLife NeedsBucket Completed OwnUploads ForeignIds Reads Copied Deleted Views Sensitive
CHECK_DEADLOCK FALSE
