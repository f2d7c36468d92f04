CONSTANT Primes = {3, 7}
SPECIFICATION Spec
INVARIANTS Ring Inverse Embedding Powers Squares Sign Coding
CHECK_DEADLOCK FALSE
