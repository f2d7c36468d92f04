CONSTANT Primes = {3, 5, 7, 11, 13, 17, 19, 23, 29, 31}
SPECIFICATION Spec
INVARIANTS Closed Ring Reduction Inverse Powers Squares Sign Coding Text
CHECK_DEADLOCK FALSE
