------------------------------ MODULE FPWorld ------------------------------
(* A session: priority levels, footprint objects, classes, collectors, setups, live objects.

   W.pri    priority levels (see FPPriority)
   W.fps    named footprint objects: name -> footprint (normal form);  W.decos  name -> decorators (decorative footprints)
   W.cls    class identifier -> [py, mod, fp, mro, bases, abstract, own (flags given by the class itself)]
   W.cols   tag -> [items, abs (class identifiers), fast (attribute names), seen (last observed instances), report]
   W.board  full name of a class -> tags of the collectors which are told about its new instances
   W.setup  [def, ext, extended, fast, fastkeys, report];   W.setups  name -> defaults of the other setups
   W.objs   object -> [cls, at: attribute -> value, held, tags]    W.maybe  objects possibly kept alive by a report
   W.foos   value objects held by the user (the others only live in attributes);  W.lastseen  last observed attributes
   W.proxies  proxy objects: name -> [own: names of its own attributes, at: attribute -> what it is]            *)
EXTENDS FPDef, FPPriority

NoRep == [k |-> "none"]
InitWorld ==
  [pri |-> PInit(<<"NONE", "DEFAULT", "TOOLBOX", "DEBUG">>),
   fps |-> EmptyFn, decos |-> EmptyFn, cls |-> EmptyFn,
   cols |-> [t \in {"garbage"} |-> [items |-> {}, abs |-> {"FootprintBase"}, fast |-> {}, seen |-> {}, report |-> 1, rep |-> NoRep]],
   board |-> EmptyFn,
   setup |-> [def |-> EmptyFn, ext |-> EmptyFn, extended |-> TRUE, fast |-> FALSE, fastkeys |-> {"kind"}, report |-> 1],
   setups |-> EmptyFn,
   objs |-> EmptyFn, maybe |-> {}, proxies |-> EmptyFn,
   foos |-> {}, lastseen |-> EmptyFn]

BaseCls == [py |-> "FootprintBase", mod |-> "footprints", fp |-> EmptyRaw, mro |-> <<"FootprintBase">>, bases |-> <<>>,
            abstract |-> TRUE, hooks |-> {}, own |-> [collector |-> <<"garbage">>, explicit |-> TRUE, reusable |-> TRUE]]
Cls(W, c) == IF c = "FootprintBase" THEN BaseCls ELSE W.cls[c]
FullName(k) == k.mod \o "." \o k.py

(* a flag of the class, possibly inherited *)
RECURSIVE FirstOwn(_, _, _)
FirstOwn(W, mro, f) == IF f \in DOMAIN Cls(W, mro[1]).own THEN Cls(W, mro[1]).own[f] ELSE FirstOwn(W, Tail(mro), f)
Flag(W, c, f) == FirstOwn(W, Cls(W, c).mro, f)
\* told by the method footprint_reusable of the nearest class which redefines it, else by the attribute
Reusable(W, c) == IF \E i \in 1..Len(Cls(W, c).mro) : "reusem" \in DOMAIN Cls(W, Cls(W, c).mro[i]).own THEN Flag(W, c, "reusem")
                  ELSE Flag(W, c, "reusable")

\* what a flag method told by the nearest class which defines it ("-": no such method);  0 and False are equal
Shade(W, c) == IF \E i \in 1..Len(Cls(W, c).mro) : "shade" \in DOMAIN Cls(W, Cls(W, c).mro[i]).own THEN Flag(W, c, "shade") ELSE "-"
SameShade(x, y) == x = y \/ {x, y} = {"zero", "false"}

Env(W) == [def |-> W.setup.def, ext |-> W.setup.ext, extended |-> W.setup.extended,
           fast |-> W.setup.fast, fastkeys |-> W.setup.fastkeys,
           objs |-> W.objs,
           ocls |-> [o \in DOMAIN W.objs |-> W.objs[o].cls],
           mro |-> [c \in DOMAIN W.cls |-> {W.cls[c].mro[i] : i \in 1..Len(W.cls[c].mro)}]]

(* ------------------------------------------------------------------ *)
(* Footprint objects and classes                                        *)

Part(W, p) == IF "ref" \in DOMAIN p THEN AsPart(W.fps[p.ref])
              ELSE IF "plain" \in DOMAIN p THEN AsPart(W.fps[p.plain])     \* as_footprint(): without its decorators
              ELSE IF "cls" \in DOMAIN p THEN AsPart(W.cls[p.cls].fp)
              ELSE RawPart(p.def)
PartsOf(W, ps) == [i \in 1..Len(ps) |-> Part(W, ps[i])]

NewMro(W, c, bases) ==
  IF bases = <<>> THEN <<c, "FootprintBase">>
  ELSE <<c>> \o C3Merge([i \in 1..(Len(bases) + 1) |-> IF i <= Len(bases) THEN Cls(W, bases[i]).mro ELSE bases])

(* the decorators that come with the parts of a definition, in order: they are used where these parts are given, and never inherited *)
RECURSIVE DecosOf(_, _)
DecosOf(W, ps) == IF ps = <<>> THEN <<>>
                  ELSE (IF "ref" \in DOMAIN ps[1] /\ ps[1].ref \in DOMAIN W.decos THEN W.decos[ps[1].ref] ELSE <<>>) \o DecosOf(W, Tail(ps))

BaseParts(W, bases) == [i \in 1..Len(bases) |-> AsPart(Cls(W, bases[Len(bases) + 1 - i]).fp)]

NewCol(W) == [items |-> {}, abs |-> {}, fast |-> {}, seen |-> {}, report |-> W.setup.report, rep |-> NoRep]
(* the collector of a tag exists as soon as it is asked for; proxies know about it *)
WithCol(W, t) ==
  IF t \in DOMAIN W.cols THEN W
  ELSE [W EXCEPT !.cols = PutFn(W.cols, t, NewCol(W)),
                 !.proxies = [p \in DOMAIN W.proxies |->
                    [W.proxies[p] EXCEPT !.at = Override(@, [n \in {t, t \o "s"} |-> IF n = t THEN "load:" \o t ELSE "col:" \o t])]]]
RECURSIVE WithCols(_, _)
WithCols(W, ts) == IF ts = <<>> THEN W ELSE WithCols(WithCol(W, ts[1]), Tail(ts))

(* what may be raised by a declared value which cannot be converted *)
DefExc == {"ValueError", "TypeError", "FootprintFatalError", "FootprintInvalidDefinition"}
(* Definition of a class.  d: [id, py, mod, bases, parts, abstract, own].
   Result: [st: "ok" or "exc", exc: acceptable exceptions, w] *)
DefClass(W, d) ==
  LET E == Env(W)
      mf == MakeFootprint(BaseParts(W, d.bases) \o PartsOf(W, d.parts), E)
      rec == [py |-> d.py, mod |-> d.mod, fp |-> mf.fp, mro |-> NewMro(W, d.id, d.bases), bases |-> d.bases,
              abstract |-> d.abstract, own |-> d.own, hooks |-> IF "hooks" \in DOMAIN d THEN {d.hooks[i] : i \in 1..Len(d.hooks)} ELSE {}]
      W1 == [W EXCEPT !.cls = PutFn(W.cls, d.id, rec)]
      tags == Flag(W1, d.id, "collector")
      ctags == [i \in 1..Len(tags) |-> TagClean(tags[i])]
      clash == \E i \in 1..Len(tags) : tags[i] \in AllKeys(mf.fp) \/ ctags[i] \in AllKeys(mf.fp)
      implicit == ~d.abstract /\ Flag(W1, d.id, "explicit") /\ Mandatory(mf.fp) = {}
      W2 == WithCols(W1, ctags)
      T == {ctags[i] : i \in 1..Len(ctags)}
      full == FullName(rec)
      W3 == [W2 EXCEPT !.cols = [t \in DOMAIN W2.cols |->
                IF t \notin T THEN W2.cols[t]
                ELSE IF d.abstract THEN [W2.cols[t] EXCEPT !.abs = @ \cup {d.id}]
                ELSE [W2.cols[t] EXCEPT !.items = @ \cup {d.id}]],
              !.board = IF d.abstract THEN @ ELSE PutFn(@, full, (IF full \in DOMAIN @ THEN @[full] ELSE {}) \cup T)]
  IN IF ~mf.ok THEN [st |-> "exc", exc |-> DefExc, w |-> W]
     ELSE IF clash \/ implicit THEN [st |-> "exc", exc |-> {"FootprintInvalidDefinition"}, w |-> W]
     ELSE [st |-> "ok", exc |-> {}, w |-> W3]

(* ------------------------------------------------------------------ *)
(* Objects                                                              *)

WeakAttr(W, c, k) == k \in DOMAIN W.cls[c].fp.attr /\ EndsWith(W.cls[c].fp.attr[k].access, "-weak")
RECURSIVE ObjsIn(_)
ObjsIn(v) == IF Kind(v) = "o" THEN {Pay(v)}
             ELSE IF Kind(v) \in SeqKinds THEN UNION {ObjsIn(Pay(v)[i]) : i \in 1..Len(Pay(v))}
             ELSE IF Kind(v) \in DictKinds THEN UNION {ObjsIn(Pay(v)[i][2]) : i \in 1..Len(Pay(v))}
             ELSE {}
Refers(W, o) == UNION {IF WeakAttr(W, W.objs[o].cls, k) THEN {} ELSE ObjsIn(W.objs[o].at[k]) : k \in DOMAIN W.objs[o].at}
RECURSIVE Closure(_, _)
Closure(W, S) == LET N == S \cup UNION {Refers(W, o) : o \in S \cap DOMAIN W.objs} IN IF N = S THEN S ELSE Closure(W, N)
ObjsOf(f) == UNION {ObjsIn(f[k]) : k \in DOMAIN f}
Roots(W) == {o \in DOMAIN W.objs : W.objs[o].held} \cup ObjsOf(W.setup.def) \cup ObjsOf(W.setup.ext)
            \cup UNION {ObjsOf(W.setups[s]) : s \in DOMAIN W.setups}
Live(W) == Closure(W, Roots(W))
MaybeLive(W) == Closure(W, Roots(W) \cup W.maybe)

Tracked(W, t, S) == {o \in S \cap DOMAIN W.objs : t \in W.objs[o].tags}

NewObj(W, id, c, at) ==
  LET full == FullName(W.cls[c])
      tags == IF full \in DOMAIN W.board THEN W.board[full] ELSE {}
  IN [W EXCEPT !.objs = PutFn(W.objs, id, [cls |-> c, at |-> at, held |-> TRUE, tags |-> tags])]
Hold(W, o) == [W EXCEPT !.objs = PutFn(W.objs, o, [W.objs[o] EXCEPT !.held = TRUE])]

(* Values seen by a reader *)
SeenAt(at) == [k \in DOMAIN at |-> ReadV(at[k])]
SameAt(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : Same(a[k], b[k])

(* Objects mentioned in a description may be kept alive by the reports *)
DescObjs(desc) == UNION {ObjsIn(desc[i][2]) : i \in 1..Len(desc)}
(* ... as well as the other values (of class Foo) which can be refused *)
Refusable(W, n, v) == \E c \in DOMAIN W.cls : \E k \in DOMAIN W.cls[c].fp.attr :
  LET d == W.cls[c].fp.attr[k] IN
  n \in {k} \cup d.alias /\ ((d.values # <<>> /\ ~InVals(v, d.values)) \/ InVals(v, d.outcast))
DescFoos(W, desc) == {Pay(desc[i][2]) : i \in {j \in 1..Len(desc) : Kind(desc[j][2]) \in {"F", "G"} /\ Refusable(W, desc[j][1], desc[j][2])}}
Report(W, desc) == [W EXCEPT !.maybe = @ \cup DescObjs(desc) \cup DescFoos(W, desc)]

(* ------------------------------------------------------------------ *)
(* Lookups                                                              *)

Verdicts(W, t, desc) == TLCEval([c \in W.cols[t].items |-> Verdict(W.cls[c].fp, desc, TLCEval(Env(W)), TRUE)])
MustMatch(v) == ~v.rej      \* (when no exception was raised)
RankOf(W, c) == IF InLv(W.pri.lv, W.cls[c].fp.level) THEN Pos(W.pri.lv, W.cls[c].fp.level) ELSE 0
Better(W, c, n, c2, n2) == RankOf(W, c) > RankOf(W, c2) \/ (RankOf(W, c) = RankOf(W, c2) /\ n > n2)

(* r: the observed result [k: "all", l: <<[cls, at, inp]...>>] / [k: "exc", x] *)
FindAllOk(W, V, r) ==
  IF r.k = "exc" THEN \E c \in DOMAIN V : r.x \in V[c].errs
  ELSE /\ \A i, j \in 1..Len(r.l) : i # j => r.l[i].cls # r.l[j].cls
       /\ \A i \in 1..Len(r.l) :
            r.l[i].cls \in DOMAIN V /\
            \E x \in V[r.l[i].cls].oks : SameAt(x.at, r.l[i].at) /\ x.inp = {r.l[i].inp[j] : j \in 1..Len(r.l[i].inp)}
       /\ \A c \in DOMAIN V : (~\E i \in 1..Len(r.l) : r.l[i].cls = c) => V[c].rej

(* the observed new object r: [k: "obj", cls, at] *)
Accepts(V, r) == r.cls \in DOMAIN V /\ \E x \in V[r.cls].oks : SameAt(SeenAt(x.at), r.at)
TheAt(V, r) == (CHOOSE x \in V[r.cls].oks : SameAt(SeenAt(x.at), r.at)).at

FindAnyOk(W, V, r) ==
  CASE r.k = "exc" -> \E c \in DOMAIN V : r.x \in V[c].errs
    [] r.k = "none" -> \A c \in DOMAIN V : V[c].rej
    [] r.k = "obj" -> Accepts(V, r)
    [] OTHER -> FALSE
FindBestOk(W, V, r) ==
  CASE r.k = "exc" -> \/ \E c \in DOMAIN V : r.x \in V[c].errs
                      \/ /\ r.x = "ValueError"
                         /\ Cardinality({c \in DOMAIN V : V[c].oks # {}}) > 1
                         /\ \E c \in DOMAIN V : V[c].oks # {} /\ RankOf(W, c) = 0
    [] r.k = "none" -> \A c \in DOMAIN V : V[c].rej
    [] r.k = "obj" -> /\ r.cls \in DOMAIN V
                      /\ \E x \in V[r.cls].oks :
                           /\ SameAt(SeenAt(x.at), r.at)
                           /\ \A c \in DOMAIN V : MustMatch(V[c]) =>
                                \E y \in V[c].oks : ~Better(W, c, Cardinality(y.inp), r.cls, Cardinality(x.inp))
    [] OTHER -> FALSE

(* the attributes of the new object *)
WithNew(W, V, id, r) ==
  IF r.k = "obj" THEN NewObj(W, id, r.cls, TheAt(V, r)) ELSE W

(* The last entry of the report of a collector, after a lookup on it (level 0: no report, 1: on error) *)
Logged(W, t, V, r) ==
  LET failed == r.k = "none" \/ (r.k = "all" /\ r.l = <<>>)
      lev == W.cols[t].report
      rep == IF r.k = "exc" THEN [k |-> "unk"]
             ELSE [k |-> "rep", failed |-> failed, part |-> ~failed /\ r.k = "obj", fast |-> W.cols[t].fast # {},
                   V |-> V, name |-> [c \in DOMAIN V |-> FullName(W.cls[c])]]
  IN IF lev = 0 \/ (lev = 1 /\ ~failed /\ r.k # "exc") THEN W ELSE [W EXCEPT !.cols[t].rep = rep]

Direct(W, c, desc) == TLCEval(Verdict(W.cls[c].fp, desc, TLCEval(Env(W)), FALSE))
DirectOk(W, c, v, r) ==
  IF W.cls[c].abstract THEN r.k = "exc" /\ r.x = "FootprintInvalidDefinition"
  ELSE
       CASE r.k = "exc" -> r.x \in v.errs \/ (v.rej /\ r.x = "FootprintFatalError")
         [] r.k = "obj" -> r.cls = c /\ \E x \in v.oks : SameAt(SeenAt(x.at), r.at)
         [] OTHER -> FALSE
DirectNew(W, c, v, id, r) ==
  IF r.k = "obj" THEN NewObj(W, id, c, (CHOOSE x \in v.oks : SameAt(SeenAt(x.at), r.at)).at) ELSE W

(* descriptions *)
IsHidden(n) == StartsWith(n, "_")
DropHidden(desc) == SelectSeq(desc, LAMBDA p : ~IsHidden(p[1]))
PutDesc(desc, n, v) == IF \E i \in 1..Len(desc) : desc[i][1] = n
                       THEN [i \in 1..Len(desc) |-> IF desc[i][1] = n THEN <<n, v>> ELSE desc[i]]
                       ELSE Append(desc, <<n, v>>)
Cleaned(W, c, desc) == SelectSeq(desc, LAMBDA p : p[1] \notin AllKeys(W.cls[c].fp))
SameDesc(a, b) == LET fa == PairsFn(a) fb == PairsFn(b) IN SameAt(fa, fb)
InDesc(desc, n) == \E i \in 1..Len(desc) : desc[i][1] = n

(* default: a live reusable instance which agrees with the description *)
Compatible(W, o, desc) ==
  LET v == Verdict(W.cls[W.objs[o].cls].fp, desc, Env(W), FALSE)
      at == W.objs[o].at
      agrees(x) == \A k \in DOMAIN x.at : k \in DOMAIN at /\ PyEq(at[k], x.at[k])
  IN [yes |-> \E x \in v.oks : agrees(x), no |-> v.rej \/ \E x \in v.oks : ~agrees(x), errs |-> v.errs]

(* Result r: [k: "old", id], [k: "obj", ...], [k: "none"], [k: "exc", x] *)
DefaultOk(W, t, desc, V, r) ==
  LET insts == {o \in W.cols[t].seen \cap DOMAIN W.objs : Reusable(W, W.objs[o].cls)}
      comp == [o \in insts |-> Compatible(W, o, desc)]
  IN CASE r.k = "old" -> r.id \in insts /\ comp[r.id].yes
       [] OTHER -> \/ r.k = "exc" /\ \E o \in insts : r.x \in comp[o].errs
                   \/ /\ \A o \in insts : comp[o].no
                      /\ FindBestOk(W, V, r)

(* grep: the instances having all these values *)
Agrees(W, o, pairs) == \A i \in 1..Len(pairs) :
  pairs[i][1] \in DOMAIN W.objs[o].at /\ PyEq(ReadV(W.objs[o].at[pairs[i][1]]), pairs[i][2])

(* ------------------------------------------------------------------ *)
(* Access to attributes                                                 *)

(* Result of an assignment: [st: "ok", v] or [st: "exc", exc] *)
Assign(W, o, k, v) ==
  LET c == W.objs[o].cls
      d == W.cls[c].fp.attr[k]
      E == Env(W)
      acc == d.access
      conv == IF IsClassAttr(d) THEN (IF IsSubclass(v, Typ(d), E) THEN Ok(v) ELSE Bad)
              ELSE IF Kind(v) = "n" \/ IsInst(v, Typ(d), E) THEN Ok(v)
              ELSE Conv(Typ(d), Args(d), v)
      refused == [st |-> "exc", v |-> None,
                  exc |-> IF Typ(d) \in DOMAIN W.cls THEN {"ValueError", "TypeError", "FootprintFatalError", "FootprintMaxIter", "FootprintUnreachableAttr", "FootprintInvalidDefinition"} ELSE {"ValueError", "TypeError"}]
  IN IF StartsWith(acc, "rxx") THEN [st |-> "exc", exc |-> {"AttributeError"}, v |-> None]
     ELSE IF conv[1] # "ok" THEN refused
     ELSE IF d.values # <<>> /\ ~InVals(conv[2], d.values) THEN refused
     ELSE IF d.outcast # <<>> /\ InVals(conv[2], d.outcast) THEN refused
     ELSE IF EndsWith(acc, "-weak") /\ Kind(conv[2]) \notin {"F", "G", "o"} THEN refused
     ELSE [st |-> "ok", exc |-> {}, v |-> conv[2]]

(* ------------------------------------------------------------------ *)
(* Collector contents                                                   *)

InPackage(W, c, p) == StartsWith(FullName(Cls(W, c)), p)
=============================================================================
