CONSTANTS
  Threads = {1, 2}
  Fields = {1, 2}
  MaxHandles = 2
  Roots = 2
  Guard = "none"
SPECIFICATION Spec
INVARIANTS RightConstants NoPanic LiveIffHeld UseIsLive
