SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS Leibniz Transposed Swapped Adjugate
CHECK_DEADLOCK FALSE
