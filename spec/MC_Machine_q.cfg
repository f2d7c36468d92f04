CONSTANT Kind = "q"
SPECIFICATION Spec
VIEW View
INVARIANTS AllValid Fixed NoMix RoundTrip Laws
PROPERTY Frame
CHECK_DEADLOCK FALSE
