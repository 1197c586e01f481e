SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS
  Emit
  Agrees
  Blanks
  PrintedBack
  Wrapped
  LeftAssoc
