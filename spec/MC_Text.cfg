CONSTANTS
  Top = 1100
  Side = 3
SPECIFICATION Spec
INVARIANT Spelt
PROPERTY Apart
CHECK_DEADLOCK FALSE
