SPECIFICATION Spec
CONSTANTS
  KeyBytes <- MCKeyBytes
  SegLen <- MCSegLen
  Names <- T2Names
  Buckets <- T2Buckets
  Metas <- T2Metas
  Contents <- T2Contents
  Pfxs <- T2Prefixes
  Ups <- T2Ups
  UpKeys <- T2UpKeys
  CopyTo <- T2CopyTo
  Many <- T2Many
  Without <- T2Without
  Emit = TRUE
CHECK_DEADLOCK FALSE
