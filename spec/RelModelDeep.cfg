SPECIFICATION Spec
CONSTANTS Marks = {"masc", "femn", "neut", "Ms-f", "GNdr", "sing", "plur", "Sgtm", "Pltm", "nomn", "gent", "Fixd"}
          MaxMarks = 4
INVARIANTS Symmetric Combined Reflexive Marked
CHECK_DEADLOCK FALSE
