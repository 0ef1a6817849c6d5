----------------------------- MODULE GenExpand -----------------------------
(* Behaviours of FPExpand generated by TLC (simulation), to be replayed on the real function. *)
EXTENDS FPExpand, Json
CONSTANT Depth
VARIABLES W, cur, pend, cmds, done
vars == <<W, cur, pend, cmds, done>>
KeySet == {"a", "b", "c", "d"}
FileNames == {"f1", "f2", "fx", "g_1", "g_x2", ".f1", "x,y", "[glob:m]_f1"}
Texts == {"a", "x,y", "range(1,3)", "range(2)", "RANGE(0,4,2)", "x,range(1,2)", "[glob:n]", "<[glob:m]>[glob:n],z", "range(3,1)", ""}
GlobTexts == {"f{glob:n:\\d}", "{glob:m:\\w}_{glob:n:.+}", "{glob:n:[fg]}*", "{glob:n:.*}", "{glob:m:.+}_{glob:n:\\w+}", "{glob:n:\\d", "{glob:n:(}",
          "{glob:n:a}{glob:n:b}", "f?{glob:n:}"}
Simple == {SV(t) : t \in Texts} \cup {IV(2), <<"n", "">>, <<"S", "x,y">>, <<"S", "[glob:n],z">>, <<"L", <<SV("a")>>>>, <<"D", <<<<SV("a"), SV("x,y")>>>>>>}
Fresh == SelectSeq(<<"a", "b", "c", "d">>, LAMBDA k : \A i \in 1..Len(cur) : cur[i][1] # k)

Init == W = ExpInit /\ cur = <<>> /\ pend = <<>> /\ cmds = <<>> /\ done = FALSE
Do(e) == cmds' = Append(cmds, e)
More == Len(cmds) < Depth /\ UNCHANGED done
SetFiles == More /\ UNCHANGED <<cur, pend>> /\ \E S \in SUBSET FileNames : LET e == [op |-> "files", names |-> Sorted(S)] IN
              /\ IF cmds = <<>> THEN TRUE ELSE cmds[Len(cmds)].op # "files"
              /\ Do(e) /\ W' = ExpStep(W, e).w
(* values are made step by step: pend holds the ones that are ready *)
RECURSIVE Deep(_)
Deep(v) == IF Kind(v) = "d" THEN 9 ELSE IF Kind(v) \in {"l", "t", "T", "L"} THEN
             1 + (IF Pay(v) = <<>> THEN 0 ELSE LET S == {Deep(Pay(v)[i]) : i \in 1..Len(Pay(v))} IN CHOOSE x \in S : \A y \in S : y <= x)
           ELSE 0
Shallow(n) == \A i \in 1..Len(pend) : Deep(pend[i]) < n
Push == More /\ UNCHANGED <<W, cmds, cur>> /\ Len(pend) < 3 /\ \E v \in Simple : pend' = Append(pend, v)
PushGlob == More /\ UNCHANGED <<W, cmds, cur>> /\ pend = <<>> /\ \E g \in GlobTexts : pend' = <<SV(g)>>
Wrap == More /\ UNCHANGED <<W, cmds, cur>> /\ Shallow(2) /\ \E k \in {"l", "t", "T", "L"} : pend' = <<<<k, pend>>>>
Match == More /\ UNCHANGED <<W, cmds, cur>> /\ pend # <<>> /\ Shallow(3) /\ \E k \in KeySet :
           pend' = <<<<"d", <<<<SV(k), <<"d", [i \in 1..12 |-> <<SV(<<"a", "x", "y", "z", "", "1", "2", "3", "0", "4", "None", "f1">>[i]),
                                                              pend[1 + (i % Len(pend))]>>]>>>>>>>>>>
Assign == More /\ UNCHANGED <<W, cmds>> /\ pend # <<>> /\ \E i \in 1..Len(Fresh) :
            cur' = Append(cur, <<Fresh[i], pend[Len(pend)]>>) /\ pend' = SubSeq(pend, 1, Len(pend) - 1)
DoExpand ==
  /\ More /\ UNCHANGED pend /\ Len(cur) > 1
  /\ LET r == Expand(cur, W.files)
         e == [op |-> "expand", desc |-> cur]
     IN /\ r[1] = "ok" => Len(r[2]) <= 30
        /\ Do(e) /\ cur' = <<>>
        /\ W' = [W EXCEPT !.given = cur, !.out = IF r[1] = "err" THEN <<>> ELSE [i \in 1..Len(r[2]) |-> Numbered(r[2][i], i)]]
Change == More /\ UNCHANGED <<cur, pend>> /\ \E i \in 1..Len(W.out) : \E k \in KeySet \cap Keys(W.out[i]) :
            \/ \E e \in {[op |-> "change", i |-> i, how |-> "set", key |-> k, val |-> SV("new")],
                         [op |-> "change", i |-> i, how |-> "del", key |-> k]} : Do(e) /\ W' = ExpStep(W, e).w
            \/ /\ Kind(Item(W.out[i], k)) \in {"L", "D"} /\ k \in Keys(W.given) /\ Item(W.given, k) = Item(W.out[i], k)
               /\ Len(W.out) > 1
               /\ LET e == [op |-> "change", i |-> i, how |-> "grow", key |-> k, path |-> <<>>] IN Do(e) /\ W' = ExpStep(W, e).w
Emit == Len(cmds) = Depth /\ ~done /\ PrintT("BEHAVIOUR " \o ToJson(cmds)) /\ done' = TRUE /\ UNCHANGED <<W, cur, pend, cmds>>
Next == SetFiles \/ Push \/ PushGlob \/ Wrap \/ Match \/ Assign \/ DoExpand \/ Change \/ Emit
Spec == Init /\ [][Next]_vars
=============================================================================
