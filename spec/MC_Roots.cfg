CONSTANTS
  Primes = {3, 5, 7, 11, 13, 19, 23, 29, 31, 37, 43, 47, 53, 59, 61, 67, 71, 79, 83}
  QPrimes = {3, 7, 11, 19, 23}
SPECIFICATION Spec
INVARIANTS RootFp NoRoot MinusOne RootFp2 Fermat Window
CHECK_DEADLOCK FALSE
