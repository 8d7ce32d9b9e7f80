----------------------------- MODULE AgreeModel ----------------------------
(* Words with readings under relations: pairs of related words are compared *)
(* one after another, in any order, readings without a partner are dropped. *)
(*  Kept      what YAgree calls the kept readings is never dropped          *)
(*  Final     when nothing can be dropped exactly these are left            *)
(*  Greatest  they contain every mutually supported choice of readings      *)
EXTENDS YAgree, Json
CONSTANTS Readings, MaxReadings
VARIABLES fs, st, K
Marks == << <<"NOUN", "masc", "sing", "nomn">>, <<"NOUN", "femn", "sing", "nomn">>, <<"ADJF", "masc", "sing", "gent">>,
            <<"ADJF", "ms-f", "sing", "nomn">>, <<"NOUN", "femn", "plur", "gent">>, <<"NOUN", "plur", "Fixd", "datv">> >>
G(t) == [t |-> t]
Gender == G("gender")
Case_ == G("case")
Differ == [t |-> "not", rs |-> <<Case_>>]
\* relations, and for every word the relations it stands under
Structures == << [rels |-> <<G("gnc")>>, at |-> << <<1>>, <<1>>, <<1>> >>],
                 [rels |-> <<Gender, Case_>>, at |-> << <<1>>, <<1, 2>>, <<2>> >>],
                 [rels |-> <<Gender, Differ>>, at |-> << <<1, 2>>, <<1>>, <<1, 2>> >>],
                 [rels |-> <<Differ, G("number")>>, at |-> << <<2>>, <<1, 2>>, <<1>> >>],
                 [rels |-> <<Gender>>, at |-> << <<1>>, <<>>, <<1>> >>],
                 [rels |-> <<Case_>>, at |-> << <<>>, <<1>>, <<>> >>] >>
Occ(s) == Concat([p \in 1..3 |-> [k \in 1..Len(s.at[p]) |-> <<s.at[p][k], p>>]])
Es == Edges(Occ(Structures[st]))
Rs == Structures[st].rels
Text == [p \in 1..3 |-> [fs |-> [k \in 1..Len(fs[p]) |-> [g |-> Marks[fs[p][k]]]]]]
All == [p \in 1..3 |-> 1..Len(fs[p])]
Upward == { s \in UNION { [1..n -> Readings] : n \in 1..MaxReadings } : \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1] }
Init == /\ fs \in [1..3 -> Upward] /\ st \in 1..Len(Structures)
        /\ K = All
Fits(e, a, b) == Agree(Rs[e[1]], Gr(Text[e[2]].fs[a]), Gr(Text[e[3]].fs[b]))
Compare(e) == K' = [K EXCEPT ![e[2]] = { a \in @ : \E b \in K[e[3]] : Fits(e, a, b) },
                             ![e[3]] = { b \in @ : \E a \in K[e[2]] : Fits(e, a, b) }]
Next == /\ \E e \in Es : e[2] < e[3] /\ Compare(e) /\ K' # K
        /\ UNCHANGED <<fs, st>>
Spec == Init /\ [][Next]_<<fs, st, K>>
Closed == Closure(Es, Rs, Text, All)
Within(A, B) == \A p \in 1..3 : A[p] \subseteq B[p]
Stable(F) == \A p \in 1..3 : F[p] = Supported(Es, Rs, Text, F, p)
Kept == Within(Closed, K)
Final == (~ENABLED Next) => K = Closed
Greatest == K = All => \A F \in [{1} -> SUBSET All[1]] : \A H \in [{2} -> SUBSET All[2]] : \A I \in [{3} -> SUBSET All[3]] :
              LET f == F @@ H @@ I IN Stable(f) => Within(f, Closed)
Emit == K = All /\ PrintT("HIST " \o ToJson([fs |-> [p \in 1..3 |-> [k \in 1..Len(fs[p]) |-> Marks[fs[p][k]]]],
                                            rels |-> Rs, at |-> Structures[st].at]))
=============================================================================
