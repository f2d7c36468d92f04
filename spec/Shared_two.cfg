CONSTANTS
  Threads = {1, 2}
  Fields = {1, 2}
  MaxHandles = 2
  Roots = 2
  Guard = "cell"
SPECIFICATION Spec
INVARIANTS RightConstants NoPanic FilledOnce OneWriter LiveIffHeld UseIsLive
PROPERTIES Finishes AllFreed
