SPECIFICATION Spec
CONSTANTS Marks = {"masc", "femn", "neut", "Ms-f", "GNdr", "sing", "plur", "Sgtm", "nomn", "Fixd"}
          MaxMarks = 3
INVARIANTS Symmetric Combined Reflexive Marked
CHECK_DEADLOCK FALSE
