SPECIFICATION Spec
CONSTANTS
  CharsOf <- TheChars
  Locked = TRUE
  SafeOrder = TRUE
  PolicyLast = TRUE
  Clients = {1, 2}
  Calls = 4
  Faults = 1
CHECK_DEADLOCK FALSE
INVARIANTS
  Refines
  Listed
  Owned
  Settled
PROPERTY Answered
