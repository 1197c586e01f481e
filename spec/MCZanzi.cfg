SPECIFICATION Spec
CONSTANT CharsOf <- TheChars
VIEW StateView
CHECK_DEADLOCK FALSE
INVARIANTS
  Emit
  Total
  Isolation
  ReadsPure
  ErrorsPure
  AdmittedOnly
  StoredWellFormed
  NoOrphans
  UpdatesKeep
  DeletesWhatItFinds
  Monotone
  LeastFixedPoint
  FaultsContained
  RetryHeals
