------------------------------ MODULE MC_Session ------------------------------
(* Model checking of FPSession: a small session (three classes, two collectors, at most MaxObj objects) under every sequence of
   at most Depth public calls.  Every call is tried with every conceivable outcome; those which the specification accepts
   are the transitions.  The properties are stated on the states and the transitions.                           *)
EXTENDS FPSession
CONSTANTS MaxObj, Depth, Start
VARIABLES W, op, n
vars == <<W, op, n>>

(* --- the classes --- *)
A(fs) == fs
Model == [optional |-> FALSE, values |-> <<SV("m1"), SV("m2")>>]
Num == [typ |-> "int", optional |-> TRUE, default |-> SV("1"), access |-> "rwd", outcast |-> <<SV("3")>>]
Txt == [optional |-> TRUE, default |-> SV("[model]-[num%03d]")]
Nam == [optional |-> FALSE, alias |-> <<"label">>, remap |-> <<<<SV("a"), SV("b")>>, <<SV("b"), SV("a")>>>>]
Def(id) ==
  CASE id = "K1" -> [op |-> "cls", id |-> id, py |-> "K1", mod |-> "pk", bases |-> <<>>, abstract |-> FALSE,
                     own |-> [collector |-> <<"alpha">>],
                     parts |-> <<[def |-> [attr |-> [x \in {"model", "num"} |-> IF x = "model" THEN Model ELSE Num]]]>>]
    [] id = "K2" -> [op |-> "cls", id |-> id, py |-> "K2", mod |-> "qk", bases |-> <<"K1">>, abstract |-> FALSE,
                     own |-> [collector |-> <<"alpha", "betas">>, reusable |-> FALSE],
                     parts |-> <<[def |-> [attr |-> [x \in {"txt"} |-> Txt], only |-> <<<<"model", <<SV("m1")>>>>>>, level |-> "TOOLBOX"]]>>]
    [] id = "K3" -> [op |-> "cls", id |-> id, py |-> "K3", mod |-> "qk", bases |-> <<>>, abstract |-> TRUE,
                     own |-> [collector |-> <<"beta">>],
                     parts |-> <<[def |-> [attr |-> [x \in {"name"} |-> Nam]]]>>]
    [] id = "K4" -> [op |-> "cls", id |-> id, py |-> "K4", mod |-> "qk", bases |-> <<"K3">>, abstract |-> FALSE,
                     own |-> EmptyFn,
                     parts |-> <<[def |-> [attr |-> [x \in {"num"} |-> [Num EXCEPT !.default = SV("[name]")]]]]>>]
    [] id = "K5" -> [op |-> "cls", id |-> id, py |-> "K5", mod |-> "qk", bases |-> <<>>, abstract |-> FALSE,   \* rejected
                     own |-> [collector |-> <<"gamma", "alpha">>],
                     parts |-> <<[def |-> [attr |-> [x \in {"alpha"} |-> Model]]]>>]
Needs(id) == CASE id = "K2" -> {"K1"} [] id = "K4" -> {"K3"} [] OTHER -> {}

Descs == {<<>>, <<<<"model", SV("m1")>>>>, <<<<"model", SV("m2")>>, <<"num", SV("2")>>, <<"_x", IV(1)>>>>,
          <<<<"model", SV("m9")>>>>, <<<<"label", SV("a")>>, <<"num", IV(2)>>>>, <<<<"name", SV("4")>>, <<"model", SV("[num]")>>>>}
Tags == {"alpha", "beta"}
Known == DOMAIN W.cls
Ob == DOMAIN W.objs
Held == {o \in Ob : W.objs[o].held}
NewId == "o" \o IntStr(Cardinality(Ob) + 1)

(* --- the calls --- *)
Calls ==
  {Def(id) : id \in {x \in {"K1", "K2", "K3", "K4", "K5"} : x \notin Known /\ Needs(x) \subseteq Known}}
  \cup [op : {"find_all"}, tag : Tags, desc : Descs]
  \cup (IF Cardinality(Ob) >= MaxObj THEN {} ELSE
         [op : {"find_best", "pickup", "default"}, tag : Tags, desc : Descs, id : {NewId}]
         \cup [op : {"new"}, cls : Known \ {"K5"}, desc : Descs, id : {NewId}]
         \cup [op : {"clone"}, src : Held, desc : {<<>>, <<<<"num", SV("2")>>>>, <<<<"num", SV("3")>>>>}, id : {NewId}, full : {FALSE}]
         \cup {[op |-> "copy", src |-> o, map |-> [x \in {o} |-> NewId]] : o \in Held})
  \cup [op : {"set"}, obj : Held, attr : {"num"}, val : {SV("2"), SV("zz"), IV(3)}]
  \cup [op : {"del"}, obj : Held, attr : {"num"}]
  \cup [op : {"drop"}, obj : Held]
  \cup [op : {"prio"}, m : {"top", "remove", "bottom"}, a : {<<"DEFAULT">>, <<"toolbox">>}]
  \cup [op : {"setup"}, m : {"update", "replace"}, setup : {""}, pairs : {<<<<"NUM", SV("2")>>>>, <<<<"Model", SV("m1")>>>>}]
  \cup [op : {"col"}, m : {"discard"}, tag : {"alpha"}, cls : Known \cap {"K1", "K2"}]
  \cup [op : {"col"}, m : {"add"}, tag : Tags, classes : {<<c>> : c \in Known \cap {"K1"}}]
  \cup [op : {"discard"}, tag : {"alpha"}, crit : {"higher"}, arg : {"TOOLBOX"}]
  \cup [op : {"resetlevel"}, tag : {"", "alpha"}, arg : {"qk"}, level : {"debug"}]
  \cup [op : {"grep"}, tag : Tags, desc : {<<<<"num", IV(2)>>>>}]

(* --- the conceivable outcomes --- *)
Exc(S) == {[k |-> "exc", x |-> x] : x \in S}
Excs == Exc({"FootprintInvalidDefinition", "ValueError", "KeyError", "AttributeError"})
LookExcs == Exc({"FootprintUnreachableAttr", "ValueError"})
NewExcs == Exc({"FootprintInvalidDefinition", "FootprintFatalError", "FootprintUnreachableAttr"})
OksOf(w, c, desc, only) == Verdict(w.cls[c].fp, desc, Env(w), only).oks
Asked(e) == IF e.op = "clone" THEN PutPairs(AtPairs(W.objs[e.src].at), e.desc)
            ELSE IF e.op \in {"pickup", "default"} THEN DropHidden(e.desc) ELSE e.desc
Objs1(e) ==
  LET w == IF "tag" \in DOMAIN e THEN WithCol(W, e.tag) ELSE W
      cs == CASE e.op = "new" -> {e.cls} [] e.op = "clone" -> {W.objs[e.src].cls} [] OTHER -> w.cols[e.tag].items
  IN UNION {{[k |-> "obj", cls |-> c, at |-> SeenAt(x.at)] : x \in OksOf(w, c, Asked(e), e.op \notin {"new", "clone"})} : c \in cs}
Lists(e) ==
  LET w == WithCol(W, e.tag)
      m == {c \in w.cols[e.tag].items : OksOf(w, c, e.desc, TRUE) # {}}
      one(c) == LET x == CHOOSE x \in OksOf(w, c, e.desc, TRUE) : TRUE IN [cls |-> c, at |-> x.at, inp |-> SetSeq(x.inp)]
  IN {[k |-> "all", l |-> LET q == SetSeq(s) IN [i \in 1..Len(q) |-> one(q[i])]] : s \in SUBSET m}
Sets(e) == {[k |-> "set", l |-> SetSeq(s)] : s \in SUBSET Ob}
Outcomes(e) ==
  CASE e.op = "find_all" -> Lists(e) \cup LookExcs
    [] e.op \in {"find_best", "pickup"} -> Objs1(e) \cup {[k |-> "none"]} \cup LookExcs
    [] e.op = "default" -> Objs1(e) \cup {[k |-> "none"]} \cup LookExcs \cup {[k |-> "old", id |-> o] : o \in Ob}
    [] e.op \in {"new", "clone"} -> Objs1(e) \cup NewExcs
    [] e.op = "grep" -> Sets(e)
    [] e.op = "prio" -> {[k |-> "ok", v |-> x] : x \in {"", Upper(e.a[1])}} \cup Excs
    [] OTHER -> {[k |-> "ok"]} \cup Excs
(* what may be left in the description after a pickup *)
Posts(e) == IF e.op # "pickup" THEN {IF "desc" \in DOMAIN e THEN e.desc ELSE <<>>}
            ELSE LET d == DropHidden(e.desc) IN
                 {d, PutDesc(d, e.tag, None), e.desc} \cup {PutDesc(x, e.tag, <<"o", e.id>>) :
                    x \in {d} \cup {SelectSeq(d, LAMBDA p : p[1] \notin S) : S \in SUBSET {d[i][1] : i \in 1..Len(d)}}}
WithOut(e, r, d) == [k \in DOMAIN e \cup {"res", "dpost"} |-> CASE k = "res" -> r [] k = "dpost" -> d [] OTHER -> e[k]]
All(e) == {WithOut(e, r, d) : r \in Outcomes(e), d \in Posts(e)}

(* after a call the collectors are looked at: they know their live instances *)
Look(w) == [w EXCEPT !.cols = [t \in DOMAIN w.cols |-> [w.cols[t] EXCEPT !.seen = Tracked(w, t, Live(w)), !.rep = NoRep]], !.maybe = {},
                     !.lastseen = EmptyFn]
RECURSIVE Build(_, _)
Build(w, ids) == IF ids = <<>> THEN w ELSE Build(DefClass(w, Def(ids[1])).w, Tail(ids))
StartDef == {<<>>, <<"K1", "K2", "K3", "K4">>}
None0 == [op |-> "init", res |-> [k |-> "ok"]]
Init == \E s \in Start : W = Look(Build(InitWorld, s)) /\ op = None0 /\ n = 0
Next == n < Depth /\ n' = n + 1 /\
  \E e \in Calls :
    LET good == {x \in All(e) : Dispatch(W, x).ok} IN
    /\ Assert(good # {}, <<"no outcome", e>>)
    /\ \E x \in TLCEval(good) : W' = Look(Dispatch(W, x).w) /\ op' = x
Spec == Init /\ [][Next]_vars
View == <<W, n>>

(* --- states --- *)
ValidObjs == \A o \in Ob : LET c == W.objs[o].cls fp == W.cls[c].fp at == W.objs[o].at IN      \* C01, C05, C11
  /\ DOMAIN at \subseteq DOMAIN fp.attr /\ ~W.cls[c].abstract
  /\ \A k \in DOMAIN at : LET d == fp.attr[k] v == at[k] IN
       \/ Kind(v) = "u" /\ d.optional
       \/ IsInst(v, Typ(d), Env(W)) /\ (d.values # <<>> => InVals(v, d.values)) /\ (d.outcast # <<>> => ~InVals(v, d.outcast))
Concrete == \A t \in DOMAIN W.cols : \A c \in W.cols[t].items : ~W.cls[c].abstract                       \* C10
NoTrace == /\ "K5" \notin Known /\ "gamma" \notin DOMAIN W.cols /\ "betas" \notin DOMAIN W.cols
           /\ ("K3" \in Known => W.cols["beta"].abs = {"K3"})
Registered == \A c \in Known : \A t \in {"alpha", "beta"} :                                               \* C10, C24
  ~W.cls[c].abstract /\ t = "beta" /\ c \in {"K2", "K4"} => c \in W.cols[t].items
ExactInstances == \A t \in DOMAIN W.cols :                                                                 \* C14
  W.cols[t].seen = {o \in Held : W.objs[o].cls \in (CASE t = "alpha" -> {"K1", "K2"} [] t = "beta" -> {"K2", "K4"} [] OTHER -> {})}
LevelsTotal == \A i, j \in 1..Len(W.pri.lv) : i # j => W.pri.lv[i] # W.pri.lv[j]                            \* C12
LowDefaults == \A k \in DOMAIN W.setup.def : Lower(k) = k                                                   \* C22
(* --- transitions --- *)
Lookups == {"find_all", "find_best", "pickup", "default", "new", "clone", "copy", "grep"}
Created1 == Ob' \ Ob
NoSideEffect == [][op'.op \in Lookups => /\ W'.cls = W.cls /\ W'.pri = W.pri /\ W'.setup = W.setup             \* C23
                     /\ \A t \in DOMAIN W.cols : W'.cols[t].items = W.cols[t].items /\ W'.cols[t].abs = W.cols[t].abs
                     /\ \A o \in Ob : W'.objs[o].at = W.objs[o].at /\ W'.objs[o].cls = W.objs[o].cls
                     /\ (op'.res.k \in {"none", "exc", "old", "all"} => Created1 = {})
                     /\ Cardinality(Created1) <= 1]_vars
OwnOnly == [][op'.op \in {"set", "del", "drop"} => Created1 = {} /\ W'.cls = W.cls                            \* C11
                     /\ \A o \in Ob \ {op'.obj} : W'.objs[o] = W.objs[o]
                     /\ \A k \in DOMAIN W.objs[op'.obj].at \ {"num"} : W'.objs[op'.obj].at[k] = W.objs[op'.obj].at[k]
                     /\ (op'.res.k = "exc" => W'.objs = W.objs)]_vars
Copies == [][op'.op \in {"copy", "clone"} /\ Created1 # {} =>                                                 \* C20
                     \A o \in Created1 : W'.objs[o].cls = W.objs[op'.src].cls /\ \A k \in DOMAIN W.objs[op'.src].at \ {"num"} :
                        SameAt([x \in {k} |-> W'.objs[o].at[k]], [x \in {k} |-> W.objs[op'.src].at[k]])]_vars
(* C03: no matching class of a higher level is left aside *)
Best == [][op'.op \in {"find_best", "pickup"} /\ op'.res.k = "obj" =>
             \A c \in W.cols[op'.tag].items : ~Verdict(W.cls[c].fp, Asked(op'), Env(W), TRUE).rej =>
                RankOf(W, c) <= RankOf(W, op'.res.cls)]_vars
(* C02: an answer is None if, and only if, nothing matches; the outcome is settled, up to ties *)
NoneIff == [][op'.op \in {"find_best", "pickup"} /\ op'.res.k = "none" =>
             \A c \in WithCol(W, op'.tag).cols[op'.tag].items : Verdict(W.cls[c].fp, Asked(op'), Env(W), TRUE).oks = {}]_vars
(* C15 *)
Consumed == [][op'.op = "pickup" /\ op'.res.k \in {"obj", "none"} =>
             LET keys(d) == {d[i][1] : i \in 1..Len(d)} k0 == {x \in keys(op'.desc) : ~StartsWith(x, "_")} IN
             IF op'.res.k = "none" THEN keys(op'.dpost) = k0 \cup {op'.tag}
             ELSE keys(op'.dpost) = (k0 \ AllKeys(W.cls[op'.res.cls].fp)) \cup {op'.tag}]_vars
(* C14: default gives a live reusable instance which agrees, when there is one *)
Reused == [][op'.op = "default" /\ op'.res.k = "obj" =>
             ~\E o \in W.cols[op'.tag].seen : Reusable(W, W.objs[o].cls) /\ Compatible(W, o, op'.desc).yes]_vars
(* C13 (outcomes do not depend on what is only diagnostic) and C02 (one verdict per class, whatever the others):
   adding or removing a class never changes the verdict on the others *)
Isolated == [][op'.op \in {"cls", "col", "discard"} => \A c \in Known : W'.cls[c].fp = W.cls[c].fp]_vars
=============================================================================
