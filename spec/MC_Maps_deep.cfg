CONSTANTS
  Primes = {5, 7, 11, 13, 19, 23}
  Kinds = {"w", "m"}
SPECIFICATION Spec
INVARIANTS SswuTotal SswuIdentity SvdwTotal SvdwCandidate Ell2Total SswuRefines SvdwRefines Ell2Refines
CHECK_DEADLOCK FALSE
