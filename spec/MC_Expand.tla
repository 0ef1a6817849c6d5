----------------------------- MODULE MC_Expand -----------------------------
(* The expansion of a description, one item of one description at a time, in any order: the results are the expected
   combinations, whatever the order of the items in the description and the order of the steps. *)
EXTENDS FPExpand
CONSTANTS Wide, AllOrders
VARIABLES given, todo, out, want, ref
vars == <<given, todo, out, want, ref>>

KeySeq == <<"a", "b", "c">>
AllKeys == {"a", "b", "c"}
Inner == <<"d", [i \in 1..10 |-> LET t == <<"x,y", "a", "x", "y", "1", "2", "p", "q", "3", "f1">>[i] IN
                  <<SV(t), IF t = "x,y" THEN SV("3") ELSE IF t = "x" THEN SV("p,q") ELSE IF t = "y" THEN IV(3) ELSE SV(t)>>]>>
DictOn(k) == <<"d", <<<<SV(k), Inner>>>>>>
Vals == {SV("a"), SV("x,y"), SV("range(1,2)"), <<"l", <<SV("x,y"), SV("a")>>>>, <<"L", <<SV("x,y")>>>>, <<"t", <<>>>>}
        \cup {DictOn(k) : k \in AllKeys}
        \cup (IF Wide THEN {<<"S", "x,y">>, <<"l", <<<<"t", <<IV(1), <<"e", <<SV("p")>>>>>>>>, SV("range(2)")>>>>, SV("f{glob:n:\\d}")} ELSE {})
Files == {"f1", "fx", "g1"}

(* every order of the keys, every choice of the values *)
Perms == IF ~AllOrders THEN {KeySeq} ELSE {p \in [1..3 -> AllKeys] : \A i, j \in 1..3 : p[i] = p[j] => i = j}
Descs == {[i \in 1..3 |-> <<p[i], f[p[i]]>>] : p \in Perms, f \in [AllKeys -> Vals]}

(* ---- what is expected, without any order ---- *)
RECURSIVE Flat(_), FlatSeq(_, _)
FlatSeq(l, i) == IF i > Len(l) THEN {} ELSE Flat(l[i]) \cup FlatSeq(l, i + 1)
Flat(v) == IF Kind(v) \in {"l", "t", "e"} THEN FlatSeq(Pay(v), 1)
           ELSE IF Kind(v) = "s" /\ RangeArgs(Pay(v)) # <<>> THEN
             LET a == RangeArgs(Pay(v)) IN {IV(n) : n \in a[1]..(IF Len(a) > 1 THEN a[2] ELSE a[1])}
           ELSE IF Kind(v) = "s" /\ HasGlob(Pay(v)) THEN {SV("f1")}
           ELSE IF Kind(v) = "s" THEN {SV(x) : x \in {SplitOn(Pay(v), ",")[i] : i \in 1..Len(SplitOn(Pay(v), ","))}}
           ELSE {v}
(* the item named by a dictionary; does the dictionary get replaced ? *)
Named(d, k) == LET v == Item(d, k) IN
  IF Kind(v) = "d" /\ Text(Pay(v)[1][1]) \in AllKeys THEN {Text(Pay(v)[1][1])} ELSE {}
RECURSIVE Resolves(_, _, _)
Resolves(d, k, seen) == /\ k \notin seen
                        /\ Kind(Item(d, k)) # "L"
                        /\ \A n \in Named(d, k) : Resolves(d, n, seen \cup {k})
Values(d, r, k) ==
  IF Named(d, k) # {} /\ Resolves(d, k, {})
  THEN LET n == CHOOSE x \in Named(d, k) : TRUE
           at == {j \in 1..Len(Pay(Inner)) : Text(Pay(Inner)[j][1]) = Str(r[n])}
       IN UNION {Flat(Pay(Inner)[j][2]) : j \in at}
  ELSE Flat(Item(d, k))
Candidates(d, k) == IF Named(d, k) = {} THEN Flat(Item(d, k))
                    ELSE {Item(d, k)} \cup UNION {Flat(Pay(Inner)[j][2]) : j \in 1..Len(Pay(Inner))}
Fn(x, y, z) == [k \in AllKeys |-> CASE k = "a" -> x [] k = "b" -> y [] OTHER -> z]
Wanted(d) ==
  LET all == {Fn(x, y, z) : x \in Candidates(d, "a"), y \in Candidates(d, "b"), z \in Candidates(d, "c")}
  IN {r \in all : \A k \in AllKeys : r[k] \in Values(d, r, k)}
AsFn(d) == [k \in AllKeys |-> Item(d, k)]

Init == given \in Descs /\ todo = <<given>> /\ out = <<>> /\ want = Wanted(given) /\ ref = Expand(given, Files)
Next ==
  /\ todo # <<>> /\ UNCHANGED <<given, want, ref>>
  /\ LET d == todo[1] IN
     IF Todo(d) = {} THEN out' = Append(out, d) /\ todo' = Tail(todo)
     ELSE \E k \in Todo(d) :
            LET a == Alternatives(d[k][2], d, Files) IN
            /\ a[1] = "ok"
            /\ todo' = [i \in 1..Len(a[2]) |-> Put(d, d[k][1], a[2][i])] \o Tail(todo)
            /\ out' = out
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == todo = <<>>
Complete == Done => {AsFn(out[i]) : i \in 1..Len(out)} = want
EachOnce == Done => \A i, j \in 1..Len(out) : i # j => out[i] # out[j]
SameOrder == \A i \in 1..Len(out) : [j \in 1..3 |-> out[i][j][1]] = [j \in 1..3 |-> given[j][1]]
Untouched == \A i \in 1..Len(out) : \A k \in AllKeys : Kind(Item(given, k)) \in Protected => Item(out[i], k) = Item(given, k)
(* the specified expansion (first item first) gives the same descriptions *)
Agrees == Done => ref[1] = "ok" /\ Len(ref[2]) = Len(out) /\ \A i \in 1..Len(out) : \E j \in 1..Len(out) : ref[2][i] = out[j]
NoDeadEnd == todo # <<>> => ENABLED Next
Ends == <>Done
=============================================================================
