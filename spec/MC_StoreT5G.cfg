SPECIFICATION Spec
CONSTANTS
  KeyBytes <- MCKeyBytes
  SegLen <- MCSegLen
  Names <- T5Names
  Buckets <- T5Buckets
  Metas <- T5Metas
  Contents <- T5Contents
  Pfxs <- T5Prefixes
  Ups <- T5Ups
  UpKeys <- T5UpKeys
  CopyTo <- T5CopyTo
  Many <- T5Many
  Without <- T5Without
  Emit = TRUE
CHECK_DEADLOCK FALSE
