SPECIFICATION Spec
CONSTANTS Alphabet = {1072, 97, 49, 64, 10, 32, 20013}  MaxLen = 4
INVARIANTS Promised Skipped Separate Typed Extended
CHECK_DEADLOCK FALSE
