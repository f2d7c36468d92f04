CONSTANTS
  Primes25519 = {5, 13, 29}
  Primes448 = {7, 11, 19, 23}
  PrimesVelu = {5, 7, 11}
SPECIFICATION Spec
INVARIANTS Codomains PushIsHom PullIsHom Compose Kernel
CHECK_DEADLOCK FALSE
