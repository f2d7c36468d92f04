CONSTANTS
  Threads = {1, 2, 3}
  Fields = {1}
  MaxHandles = 3
  Roots = 3
  Guard = "cell"
SPECIFICATION Spec
INVARIANTS RightConstants NoPanic FilledOnce OneWriter LiveIffHeld UseIsLive
PROPERTIES Finishes AllFreed
