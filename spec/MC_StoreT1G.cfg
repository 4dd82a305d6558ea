SPECIFICATION Spec
CONSTANTS
  KeyBytes <- MCKeyBytes
  SegLen <- MCSegLen
  Names <- T1Names
  Buckets <- T1Buckets
  Metas <- T1Metas
  Contents <- T1Contents
  Pfxs <- T1Prefixes
  Ups <- T1Ups
  UpKeys <- T1UpKeys
  CopyTo <- T1CopyTo
  Many <- T1Many
  Without <- T1Without
  Emit = TRUE
CHECK_DEADLOCK FALSE
