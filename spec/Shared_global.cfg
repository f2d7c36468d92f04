CONSTANTS
  Threads = {1, 2}
  Fields = {1, 2}
  MaxHandles = 2
  Roots = 2
  Guard = "global"
SPECIFICATION Spec
INVARIANTS RightConstants NoPanic LiveIffHeld UseIsLive
