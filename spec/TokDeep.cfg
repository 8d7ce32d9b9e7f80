SPECIFICATION Spec
CONSTANTS Alphabet = {1072, 97, 49, 64, 10, 32}  MaxLen = 5
INVARIANTS Promised Skipped Separate Typed Extended
CHECK_DEADLOCK FALSE
