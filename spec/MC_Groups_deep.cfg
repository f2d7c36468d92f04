CONSTANTS
  Primes = {5, 7, 11}
  Kinds = {"w", "m", "e"}
SPECIFICATION Spec
INVARIANTS Group Scalars MulHom Representations ValidOnly TwoTorsion
CHECK_DEADLOCK FALSE
