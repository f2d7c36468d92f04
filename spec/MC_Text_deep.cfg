CONSTANTS
  Top = 4000
  Side = 5
SPECIFICATION Spec
INVARIANT Spelt
PROPERTY Apart
CHECK_DEADLOCK FALSE
