------------------------------- MODULE MC_Log -------------------------------
(* Model checking of FPLog: one log, all the sequences of commands up to Depth; the ghost `hist` is the sequence of all
   the collector entries added since the last clear (only the last one after a reduction).                        *)
EXTENDS FPLog
CONSTANTS Maxes, Collectors, Classes, Depth
MaxesDef == {0 - 1, 0, 1, 2}
VARIABLES W, hist, n, res
vars == <<W, hist, n, res>>

Cmds(w) ==
  LET l == w.logs["l"] IN
  [op : {"add"}, log : {"l"}, what : {"collector"}, node : Collectors]
  \cup [op : {"add"}, log : {"l"}, what : {"candidate"}, node : Classes]
  \cup [op : {"add"}, log : {"l"}, what : {"attribute"}, name : {"kind"}, info : {[why |-> "Missing value"], [only |-> "Do not match"]}]
  \cup [op : {"clear", "reduce"}, log : {"l"}]
  \cup {[op |-> "current", log |-> "l", i |-> i, j |-> j] : i \in 1..Len(l.ent), j \in {0}}
  \cup UNION {{[op |-> "current", log |-> "l", i |-> i, j |-> j] : j \in 1..Len(l.ent[i].kids)} : i \in 1..Len(l.ent)}
WithRes(e, r) == [k \in DOMAIN e \cup {"res"} |-> IF k = "res" THEN r ELSE e[k]]

Init == /\ \E m \in Maxes : W = LogStep(LogInit, [op |-> "mk", log |-> "l", max |-> m, weak |-> TRUE, res |-> [k |-> "ok"]]).w
        /\ hist = <<>> /\ n = 0 /\ res = "ok"
Next ==
  /\ n < Depth /\ n' = n + 1
  /\ \E e \in Cmds(W) :
       LET a == LogStep(W, WithRes(e, [k |-> "ok", x |-> ""]))
           b == LogStep(W, WithRes(e, [k |-> "exc", x |-> "FootprintBadLogEntry"]))
           s == IF a.ok THEN a ELSE b
       IN /\ a.ok # b.ok       \* exactly one outcome is specified
          /\ W' = s.w /\ res' = IF a.ok THEN "ok" ELSE "refused"
          /\ hist' = CASE e.op = "clear" -> <<>>
                       [] e.op = "reduce" -> LastN(LastN(hist, W.logs["l"].max), 1)
                       [] e.op = "add" /\ e.what = "collector" -> Append(hist, W.next)
                       [] OTHER -> hist
Spec == Init /\ [][Next]_vars

L == W.logs["l"]
Ids == [i \in 1..Len(L.ent) |-> L.ent[i].id]
Bounded == L.max >= 0 => Len(L.ent) <= L.max
MostRecent == Ids = LastN(hist, L.max)
Ordered == \A i, j \in 1..Len(L.ent) : i < j => L.ent[i].id < L.ent[j].id
(* additions only go to the current context *)
OneContext == \A i \in 1..Len(L.ent) : \A k \in 1..Len(L.ent[i].kids) : L.ent[i].kids[k].id > L.ent[i].id
ViewsAgree == /\ Len(DictView(L, TRUE)) = Len(L.ent) /\ Len(XmlView(L)) = Len(L.ent)
              /\ \A i \in 1..Len(L.ent) :
                   {XmlView(L)[i][2][k][1] : k \in 1..Len(XmlView(L)[i][2])} = DOMAIN DictView(L, FALSE)[i][2]
KeysDistinct == \A i, j \in 1..Len(L.ent) : i # j => DictView(L, FALSE)[i][1] # DictView(L, FALSE)[j][1]
RefusedUnchanged == [][res' = "refused" => W'.logs = W.logs]_vars
ReduceKeepsLast == [][W'.logs["l"].ent # <<>> /\ Len(W'.logs["l"].ent) < Len(W.logs["l"].ent)
                       => W'.logs["l"].ent[Len(W'.logs["l"].ent)].id = L.ent[Len(L.ent)].id]_vars
=============================================================================
