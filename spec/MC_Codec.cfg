CONSTANTS
  Primes = {5}
  Kinds = {"w", "m", "e"}
SPECIFICATION Spec
INVARIANTS Inverse Injective
CHECK_DEADLOCK FALSE
