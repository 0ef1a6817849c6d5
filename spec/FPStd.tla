-------------------------------- MODULE FPStd --------------------------------
(* The protected containers (footprints.stdtypes) as values: equality, hash, iteration, copies, exports, and their way
   through footprints and expansions. The state is a set of named values; two names never share anything. *)
EXTENDS FPVal, FPRegexp

StdInit == [v |-> [x \in {} |-> None]]
Put1(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

PlainKind(k) == CASE k = "L" -> "l" [] k = "T" -> "t" [] k = "D" -> "d" [] k = "E" -> "e" [] k = "S" -> "s" [] OTHER -> k
FPKind(k) == CASE k = "l" -> "L" [] k = "t" -> "T" [] k = "d" -> "D" [] k = "e" -> "E" [] k = "s" -> "S" [] OTHER -> k

(* the place of a value in a set or in the keys of a mapping *)
Found(l, x) == {i \in 1..Len(l) : PyEq(l[i], x)}
KeyAt(l, x) == {i \in 1..Len(l) : PyEq(l[i][1], x)}
RemoveAt(l, i) == SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l))

(* In place changes; <<"err">> if they are refused *)
ChangeOf(v, how, x, y) ==
  LET k == Kind(v) p == Pay(v) IN
  CASE k = "L" /\ how = "add" -> <<"ok", <<k, Append(p, x)>>>>
    [] k = "L" /\ how = "insert" -> <<"ok", <<k, <<x>> \o p>>>>
    [] k = "L" /\ how = "del" -> IF Found(p, x) = {} THEN <<"err", v>>
         ELSE <<"ok", <<k, RemoveAt(p, CHOOSE i \in Found(p, x) : \A j \in Found(p, x) : i <= j)>>>>
    [] k = "L" /\ how = "reverse" -> <<"ok", <<k, [i \in 1..Len(p) |-> p[Len(p) + 1 - i]]>>>>
    [] k = "E" /\ how = "add" -> IF ~PyHashable(x) THEN <<"err", v>> ELSE <<"ok", IF Found(p, x) = {} THEN <<k, Append(p, x)>> ELSE v>>
    [] k = "E" /\ how = "del" -> IF ~PyHashable(x) \/ Found(p, x) = {} THEN <<"err", v>>
         ELSE <<"ok", <<k, RemoveAt(p, CHOOSE i \in Found(p, x) : TRUE)>>>>
    [] k = "D" /\ how = "add" -> IF ~PyHashable(x) THEN <<"err", v>>
         ELSE <<"ok", <<k, IF KeyAt(p, x) = {} THEN Append(p, <<x, y>>)
                           ELSE [i \in 1..Len(p) |-> IF i \in KeyAt(p, x) THEN <<p[i][1], y>> ELSE p[i]]>>>>
    [] k = "D" /\ how = "del" -> IF ~PyHashable(x) \/ KeyAt(p, x) = {} THEN <<"err", v>>
         ELSE <<"ok", <<k, RemoveAt(p, CHOOSE i \in KeyAt(p, x) : TRUE)>>>>
    [] how = "clear" /\ k \in {"L", "E", "D"} -> <<"ok", <<k, <<>>>>>>
    [] OTHER -> <<"err", v>>

(* the same items in the same order, or in any order for sets *)
SameItems(v, l) == IF Kind(v) \in SetKinds THEN Len(l) = Len(Pay(v)) /\ SameSet(Pay(v), l)
                   ELSE IF Kind(v) \in DictKinds THEN Same(<<"d", Pay(v)>>, <<"d", l>>) /\ \A i \in 1..Len(l) : Same(l[i][1], Pay(v)[i][1])
                   ELSE Same(<<"l", Pay(v)>>, <<"l", l>>)
Sortable(l) == \A i, j \in 1..Len(l) : Orderable(l[i], l[j])
IsSorted(l) == \A i \in 1..Len(l) - 1 : ~Less(l[i + 1], l[i])

Fine(w) == [ok |-> TRUE, w |-> w, why |-> ""]
Fails(w, why) == [ok |-> FALSE, w |-> w, why |-> why]
Expect(w, c, why) == IF c THEN Fine(w) ELSE Fails(w, why)
Set1(W, n, v) == [W EXCEPT !.v = Put1(W.v, n, v)]

StdStep(W, e) ==
  CASE e.op = "mk" ->           \* e.val: the value that is expected, however it is built (e.via)
         Expect(Set1(W, e.name, e.val), e.res.k = "ok", "std-creation")
    [] e.op = "change" ->
         LET r == ChangeOf(W.v[e.name], e.how, e.x, e.y) IN
         IF r[1] = "err" THEN Expect(W, e.res.k = "exc", "std-change")
         ELSE Expect(Set1(W, e.name, r[2]), e.res.k = "ok", "std-change")
    [] e.op = "plain" ->        \* the plain container with the same items
         Expect(Set1(W, e.to, <<PlainKind(Kind(W.v[e.name])), Pay(W.v[e.name])>>), e.res.k = "ok", "std-creation")
    [] e.op = "eq" ->
         LET a == W.v[e.a] b == W.v[e.b] q == PyEq(a, b) IN
         IF e.res # [k |-> "ok", eq |-> q, ne |-> ~q] THEN Fails(W, "std-equality") ELSE Fine(W)
    [] e.op = "hash" ->         \* two hashes
         LET a == W.v[e.a] b == W.v[e.b] IN
         IF ~(PyHashable(a) /\ PyHashable(b)) THEN Expect(W, e.res = [k |-> "exc", x |-> "TypeError"], "std-unhashable")
         ELSE Expect(W, e.res.k = "ok" /\ (PyEq(a, b) => e.res.same), "std-hash")
    [] e.op = "key" ->          \* {a: 1}[b], {a} with b
         LET a == W.v[e.a] b == W.v[e.b] IN
         IF ~(PyHashable(a) /\ PyHashable(b)) THEN Expect(W, e.res = [k |-> "exc", x |-> "TypeError"], "std-unhashable")
         ELSE Expect(W, e.res = [k |-> "ok", found |-> PyEq(a, b)], "std-key")
    [] e.op = "items" ->
         LET v == W.v[e.name] IN
         Expect(W, /\ e.res.k = "ok" /\ e.res.len = Len(Pay(v))
                   /\ SameItems(v, e.res.items) /\ SameItems(v, e.res.again)
                   /\ IF Kind(v) \in DictKinds THEN SameItems(<<"t", [i \in 1..Len(Pay(v)) |-> Pay(v)[i][1]]>>, e.res.iter)
                      ELSE SameItems(v, e.res.iter), "std-items")
    [] e.op = "in" ->
         LET v == W.v[e.name] IN
         IF Kind(v) \in SetKinds \cup DictKinds /\ ~PyHashable(e.x) THEN Expect(W, e.res.k = "exc", "std-in")
         ELSE Expect(W, e.res = [k |-> "ok", found |-> IF Kind(v) \in DictKinds THEN KeyAt(Pay(v), e.x) # {} ELSE Found(Pay(v), e.x) # {}], "std-in")
    [] e.op = "copy" ->
         Expect(Set1(W, e.to, W.v[e.name]), e.res = [k |-> "ok", eq |-> TRUE, fresh |-> TRUE], "std-copy")
    [] e.op = "export" ->
         LET v == W.v[e.name] l == e.res.l IN
         Expect(W, /\ e.res.k = "ok" /\ e.res.list
                   /\ Len(l) = Len(Pay(v)) /\ SameSet(Pay(v), l)
                   /\ (Sortable(Pay(v)) => IsSorted(l)), "std-export")
    [] e.op = "through" ->      \* an attribute of a footprint object; given as it is, or as a plain container
         LET v == W.v[e.name]
             want == <<FPKind(Kind(v)), Pay(v)>>
         IN IF e.res.k # "ok" THEN Fails(W, "std-through")
            ELSE Expect(Set1(W, e.to, want), /\ Same(e.res.val, want) /\ (Kind(v) = want[1] => e.res.is), "std-through")
    [] e.op = "expand" ->       \* {"x": value, "y": "p,q"}
         LET v == W.v[e.name] IN
         Expect(Set1(W, e.to, v), e.res.k = "ok" /\ Len(e.res.l) = 2 /\ \A i \in 1..2 : Same(e.res.l[i], v), "std-expand")
    [] e.op = "regex" ->        \* a compiled expression, deep copied or not; compared with the specified matches
         LET t == [i \in 1..Len(e.texts) |-> IF e.icase THEN Lower(e.texts[i]) ELSE e.texts[i]]     \* (the expressions are in lower case)
             fl == IF e.icase THEN 34 ELSE 32
         IN Expect(W, e.res = [k |-> "ok", full |-> [i \in 1..Len(t) |-> RxIsFull(e.rx, t[i])],
                               match |-> [i \in 1..Len(t) |-> RxMatch(e.rx, t[i])],
                               pattern |-> e.text, flags |-> fl, text |-> "FPRegex(r'" \o e.text \o "', flags=" \o ToString(fl) \o ")"], "std-regex")
    [] e.op = "drop" -> Fine([W EXCEPT !.v = [x \in DOMAIN W.v \ {e.name} |-> W.v[x]]])
    [] OTHER -> Fails(W, "unknown-command")

StdObs(W, o) ==
  IF DOMAIN W.v # DOMAIN o THEN "std-values"
  ELSE IF \E n \in DOMAIN W.v : ~Same(W.v[n], o[n]) THEN "std-values" ELSE ""
=============================================================================
