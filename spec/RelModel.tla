------------------------------ MODULE RelModel ------------------------------
(* Any two readings and any relation, built grammeme by grammeme.           *)
EXTENDS YAgree
CONSTANT Marks, MaxMarks
VARIABLES a, b
Init == a = {} /\ b = {}
Next == \/ \E g \in Marks \ a : Cardinality(a) < MaxMarks /\ a' = a \cup {g} /\ UNCHANGED b
        \/ \E g \in Marks \ b : Cardinality(b) < MaxMarks /\ b' = b \cup {g} /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>
Prim == { [t |-> x] : x \in {"gender", "number", "case", "gnc"} }
Comp == Prim \cup { [t |-> "not", rs |-> <<p>>] : p \in Prim }
             \cup { [t |-> o, rs |-> <<p, q>>] : o \in {"and", "or"}, p \in Prim, q \in Prim }
Symmetric == \A R \in Comp : Agree(R, a, b) = Agree(R, b, a)
Combined == Agree([t |-> "gnc"], a, b) =
            Agree([t |-> "and", rs |-> <<[t |-> "gender"], [t |-> "number"], [t |-> "case"]>>], a, b)
\* a reading agrees with itself in case, and in gender and number when it has one
Reflexive == /\ CaseOk(a, a)
             /\ (a \cap {"masc", "femn", "neut", "GNdr", "plur"} # {}) => GenderOk(a, a)
             /\ (a \cap {"sing", "plur"} # {}) => NumberOk(a, a)
\* readings without a mark agree only where nothing is required
Marked == /\ (a \cap {"masc", "femn", "neut", "Ms-f", "ms-f", "GNdr", "plur"} = {} /\ ~General(b)) => ~GenderOk(a, b)
          /\ (a \cap {"sing", "plur", "Sgtm", "Pltm"} = {}) => ~NumberOk(a, b)
=============================================================================
