SPECIFICATION Spec
CONSTANTS
  KeyBytes <- MCKeyBytes
  SegLen <- MCSegLen
  Names <- ANames
  Buckets <- ABuckets
  Metas <- AMetas
  Contents <- AContents
  Pfxs <- APrefixes
  Ups <- AUps
  UpKeys <- AUpKeys
  CopyTo <- ACopyTo
  Many <- AMany
  Without <- AWithout
  Emit = FALSE
INVARIANTS TypeOK RightAnswers Frame RefusedChangesNothing Written ReadsArePure BucketLife NeedsBucket Completed OwnUploads ForeignIds Reads Copied Deleted Views Sensitive
CHECK_DEADLOCK FALSE
