CONSTANTS
  Primes = {5, 7}
  MaxK = 40
SPECIFICATION Spec
INVARIANTS AddRefines DblRefines NegRefines EqRefines Accumulator Result
PROPERTY Terminates
CHECK_DEADLOCK FALSE
