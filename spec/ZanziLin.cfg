SPECIFICATION Spec
CONSTANT CharsOf <- TheChars
CHECK_DEADLOCK FALSE
