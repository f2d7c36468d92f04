CONSTANTS
  Primes25519 = {5, 13}
  Primes448 = {7, 11}
  PrimesVelu = {5, 7}
SPECIFICATION Spec
INVARIANTS Codomains PushIsHom PullIsHom Compose Kernel
CHECK_DEADLOCK FALSE
