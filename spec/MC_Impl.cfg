CONSTANTS
  Primes = {5}
  MaxK = 12
SPECIFICATION Spec
INVARIANTS AddRefines DblRefines NegRefines EqRefines Accumulator Result
PROPERTY Terminates
CHECK_DEADLOCK FALSE
