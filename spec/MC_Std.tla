------------------------------- MODULE MC_Std -------------------------------
(* Properties of the values of FPVal that the protected containers rely on, for every pair and triple of a universe of
   values; and the changes of a container, from every value: what is added is there, what is removed is not. *)
EXTENDS FPStd
VARIABLES a, b, c
vars == <<a, b, c>>
Atoms == {SV("a"), <<"S", "a">>, IV(1), <<"b", "T">>, <<"f", "1.0">>, IV(2), None}
Small1 == {<<k, <<x>>>> : k \in {"l", "L", "t", "T", "e", "E"}, x \in Atoms}
Pairs == {<<k, <<x, y>>>> : k \in {"l", "L", "T"}, x, y \in {SV("a"), <<"S", "a">>, IV(1), <<"b", "T">>, IV(2)}}
         \cup {<<k, <<SV("a"), x>>>> : k \in {"e", "E"}, x \in {IV(1), <<"f", "1.0">>, IV(2)}}
         \cup {<<k, <<x, <<"S", "a">>>>>> : k \in {"E"}, x \in {IV(1), <<"f", "1.0">>, IV(2)}}
Maps == {<<k, <<>>>> : k \in {"d", "D", "L", "E", "t"}}
        \cup {<<k, <<<<x, y>>>>>> : k \in {"d", "D"}, x, y \in {SV("a"), IV(1), <<"b", "T">>}}
        \cup {<<k, <<<<SV("a"), y>>, <<IV(1), z>>>>>> : k \in {"d", "D"}, y, z \in {IV(1), <<"L", <<>>>>}}
        \cup {<<k, <<<<<<"b", "T">>, z>>, <<<<"S", "a">>, y>>>>>> : k \in {"D"}, y, z \in {IV(1), <<"L", <<>>>>}}
Nested == {<<k, <<x>>>> : k \in {"L", "T"}, x \in {<<"L", <<>>>>, <<"l", <<>>>>, <<"E", <<IV(1)>>>>, <<"D", <<<<IV(1), None>>>>>>}}
U == Atoms \cup Small1 \cup Pairs \cup Maps \cup Nested
Init == a \in U /\ b \in U /\ c \in {x \in U : PyEq(b, x)}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Reflexive == PyEq(a, a) /\ Same(a, a)
Symmetric == PyEq(a, b) = PyEq(b, a) /\ Same(a, b) = Same(b, a)
Transitive == PyEq(a, b) => PyEq(a, c)
SameIsEqual == Same(a, b) => PyEq(a, b) /\ Kind(a) = Kind(b) /\ PyHashable(a) = PyHashable(b)
Hows == {"add", "insert", "del", "reverse", "clear"}
Congruent == PyEq(a, b) /\ Kind(a) = Kind(b) /\ Kind(a) \in {"L", "D", "E"} =>
  \A how \in Hows, x \in {SV("a"), IV(1), IV(2), <<"l", <<>>>>} :
     LET r == ChangeOf(a, how, x, None) s == ChangeOf(b, how, x, None) IN r[1] = s[1] /\ PyEq(r[2], s[2])
Effects == Kind(a) \in {"L", "D", "E"} =>
  \A x \in {SV("a"), IV(1), IV(2), None} :
     LET added == ChangeOf(a, "add", x, SV("y"))
         removed == ChangeOf(added[2], "del", x, None)
         At(v) == IF Kind(v) = "D" THEN KeyAt(Pay(v), x) ELSE Found(Pay(v), x)
     IN /\ added[1] = "ok" /\ At(added[2]) # {} /\ removed[1] = "ok"
        /\ Kind(a) # "L" => At(removed[2]) = {} /\ Cardinality(At(added[2])) = 1
        /\ Len(Pay(removed[2])) = Len(Pay(added[2])) - 1
=============================================================================
