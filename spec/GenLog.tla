------------------------------- MODULE GenLog -------------------------------
(* Behaviours of FPLog generated by TLC (simulation), to be replayed on the real logs. *)
EXTENDS FPLog, Json
CONSTANT Depth
VARIABLES W, cmds, done
vars == <<W, cmds, done>>
Names == {"l1", "l2"}
Nodes == {"alpha", "beta"}
ClassNames == {"pk.Aa", "qk.Ab", "Ca"}
Infos == {[why |-> "Missing value"], [only |-> "Do not match", args |-> "('x',)"], [why |-> "Invalid value", args |-> "12"]}
Gone == {cmds[i].node : i \in {j \in 1..Len(cmds) : cmds[j].op = "drop"}}
Cmds ==
  [op : {"mk"}, log : Names, max : {0 - 1, 1, 2, 3}, weak : BOOLEAN]
  \cup UNION {
    [op : {"add"}, log : {n}, what : {"collector"}, node : Nodes \ Gone]
    \cup [op : {"add"}, log : {n}, what : {"candidate"}, node : ClassNames \ Gone]
    \cup [op : {"add"}, log : {n}, what : {"attribute"}, name : {"kind", "num"}, info : Infos]
    \cup [op : {"clear", "reduce"}, log : {n}]
    \cup {[op |-> "current", log |-> n, i |-> i, j |-> 0] : i \in 1..Len(W.logs[n].ent)}
    \cup UNION {{[op |-> "current", log |-> n, i |-> i, j |-> j] : j \in 1..Len(W.logs[n].ent[i].kids)} : i \in 1..Len(W.logs[n].ent)}
    \cup [op : {"view"}, log : {n}, m : {"dict"}, stamp : BOOLEAN]
    \cup [op : {"view"}, log : {n}, m : {"xml", "xmllast", "last", "raw"}]
    \cup [op : {"view"}, log : {n}, m : {"whynot"}, sel : {"", "pk", "a"}] : n \in DOMAIN W.logs}
  \cup [op : {"drop"}, node : (W.alive \ Gone) \cap {"beta", "Ca"}]
WithRes(e, r) == [k \in DOMAIN e \cup {"res"} |-> IF k = "res" THEN r ELSE e[k]]
After(e) == IF e.op = "view" THEN W
            ELSE LET a == LogStep(W, WithRes(e, [k |-> "ok", x |-> ""])) IN
                 IF a.ok THEN a.w ELSE LogStep(W, WithRes(e, [k |-> "exc", x |-> "FootprintBadLogEntry"])).w
Init == W = LogInit /\ cmds = <<>> /\ done = FALSE
Command == \E e \in Cmds :
  /\ Len(cmds) < Depth /\ UNCHANGED done
  /\ cmds = <<>> => e.op = "mk"
  /\ e.op = "mk" => DOMAIN W.logs = {} \/ (Len(cmds) < 3 /\ e.log \notin DOMAIN W.logs) 
  /\ cmds' = Append(cmds, e) /\ W' = After(e)
Emit == Len(cmds) = Depth /\ ~done /\ PrintT("BEHAVIOUR " \o ToJson(cmds)) /\ done' = TRUE /\ UNCHANGED <<W, cmds>>
Next == Command \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
