SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS Leibniz Transposed Swapped Adjugate
CHECK_DEADLOCK FALSE
