SPECIFICATION Spec
CONSTANTS
  KeyBytes <- MCKeyBytes
  SegLen <- MCSegLen
  Names <- CNames
  Buckets <- CBuckets
  Metas <- CMetas
  Contents <- CContents
  Pfxs <- CPrefixes
  Ups <- CUps
  UpKeys <- CUpKeys
  CopyTo <- CCopyTo
  Many <- CMany
  Without <- CWithout
  Emit = FALSE
INVARIANTS TypeOK RightAnswers Frame RefusedChangesNothing Written ReadsArePure BucketLife NeedsBucket Completed OwnUploads ForeignIds Reads Copied Deleted Views Sensitive
CHECK_DEADLOCK FALSE
