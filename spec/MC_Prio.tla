------------------------------- MODULE MC_Prio -------------------------------
(* Model checking of FPPriority: every sequence of operations on a set of levels (all the reachable states).  The property C12
   is stated here independently of the definition of the operations.                                              *)
EXTENDS FPPriority
CONSTANTS Start, More, Frozen
StartDef == <<"A", "B">>
VARIABLES p, op, r
vars == <<p, op, r>>
Names == {Start[i] : i \in 1..Len(Start)} \cup More
Low == [x \in Names |-> Lower(x)]
Ops == [m : {"extend", "insert", "remove", "delete", "up", "down", "top", "bottom", "nextlevel", "prevlevel", "level", "levelindex"}, a : {<<x>> : x \in Names}]
       \cup [m : {"insert_after", "insert_before", "addafter", "addbefore", "cmp"}, a : Names \X Names]
       \cup {[m |-> "extend", a |-> <<Low[x], y>>] : x, y \in Names}
       \cup {[m |-> m, a |-> <<z, x, y>>] : m \in {"set_before", "set_after"}, x, y, z \in Names}
       \cup {[m |-> "rerank", a |-> <<x, n>>] : x \in Names, n \in {0 - 2, 0 - 1, 0, 1, 2}}
       \cup [m : {"freeze", "restore"}, a : {<<f>> : f \in Frozen \cup {"default"}}]
       \cup {[m |-> "reset", a |-> <<>>]}
Init == p = PInit(Start) /\ op = [m |-> "init", a |-> <<>>] /\ r = <<"ok", "">>
Next == \E o \in Ops : LET x == POp(p, o) IN p' = x.p /\ op' = o /\ r' = x.r
Spec == Init /\ [][Next]_vars
View == p

Elems(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Total == Distinct(p.lv) /\ Elems(p.lv) \subseteq Names
FrozenTotal == \A f \in DOMAIN p.fz : Distinct(p.fz[f]) /\ p.fz["default"] = Start
(* the names moved or added by an operation *)
Named(o) == CASE o.m \in {"insert_after", "insert_before", "addafter", "addbefore"} -> {Upper(o.a[1])}
              [] o.m \in {"set_before", "set_after"} -> {Upper(o.a[i]) : i \in 2..Len(o.a)}
              [] o.m \in {"extend", "insert", "remove", "delete", "up", "down", "top", "bottom"} -> {Upper(o.a[i]) : i \in 1..Len(o.a)}
              [] o.m = "rerank" -> {Upper(o.a[1])}
              [] OTHER -> {}
Others(s, N) == SelectSeq(s, LAMBDA x : x \notin N)
Whole(o) == o.m \in {"restore", "reset"}
Frame == [][~Whole(op') => Others(p'.lv, Named(op')) = Others(p.lv, Named(op'))]_vars
FailsUnchanged == [][r'[1] = "exc" => p' = p]_vars
Presence == [][r'[1] = "ok" /\ ~Whole(op') =>
                 IF op'.m \in {"remove", "delete"} THEN Elems(p'.lv) = Elems(p.lv) \ Named(op')
                 ELSE Elems(p'.lv) = Elems(p.lv) \cup Named(op')]_vars
Place == [][r'[1] = "ok" =>
   LET m == op'.m a == op'.a n == Len(p'.lv) pos(x) == Pos(p'.lv, Upper(x)) IN
   CASE m \in {"insert_after", "addafter"} -> pos(a[1]) = pos(a[2]) + 1
     [] m \in {"insert_before", "addbefore"} -> pos(a[1]) = pos(a[2]) - 1
     [] m = "set_before" -> pos(a[3]) = pos(a[1]) - 1 /\ (a[2] # a[3] => pos(a[2]) = pos(a[1]) - 2)
     [] m = "set_after" -> pos(a[2]) = pos(a[1]) + 1 /\ (a[2] # a[3] => pos(a[3]) = pos(a[1]) + 2)
     [] m \in {"top", "insert"} -> pos(a[1]) = n
     [] m = "bottom" -> pos(a[1]) = 1
     [] m = "extend" -> \A i \in 1..Len(a) : (\A j \in (i + 1)..Len(a) : Upper(a[j]) # Upper(a[i])) => pos(a[i]) = n - (Len(a) - i)
     [] m \in {"up", "down", "rerank"} ->
          LET d == CASE m = "up" -> 1 [] m = "down" -> 0 - 1 [] OTHER -> a[2] q == Pos(p.lv, Upper(a[1])) + d
          IN pos(a[1]) = (IF q < 1 THEN 1 ELSE IF q > n THEN n ELSE q)
     [] m = "restore" -> p'.lv = p.fz[Lower(a[1])]
     [] m = "reset" -> p'.lv = Start
     [] OTHER -> TRUE]_vars
FreezeOnly == [][p'.fz # p.fz => op'.m = "freeze" /\ \A f \in DOMAIN p.fz : f # Lower(op'.a[1]) => p'.fz[f] = p.fz[f]]_vars
=============================================================================
