----------------------------- MODULE FPSession -----------------------------
(* The session as a state machine: one step per public call.
   Step(W, e) gives [ok, why, w]: may the call e (with its observed result e.res) happen in W, which clause
   is broken otherwise, and the next state.                                                              *)
EXTENDS FPWorld

Yes(w) == [ok |-> TRUE, why |-> "", w |-> w]
No(w, x) == [ok |-> FALSE, why |-> x, w |-> w]
SeqSet(s) == {s[i] : i \in 1..Len(s)}
Chk(c, why, w) == IF c THEN Yes(w) ELSE No(0, why)

ExcIn(r, S) == r.k = "exc" /\ r.x \in S

(* --- definitions --- *)
(* e.deco: a decorative footprint, with these decorators (class decorators) in addition to the ones of its parts *)
StepFootprint(W, e) ==
  LET m == MakeFootprint(PartsOf(W, e.parts), Env(W))
      isdeco == "deco" \in DOMAIN e
      decos == IF isdeco THEN DecosOf(W, e.parts) \o e.deco ELSE <<>>
  IN
  IF m.ok /\ isdeco /\ "?" \in SeqSet(e.deco) THEN Chk(ExcIn(e.res, {"ValueError"}), "decorators-refused", W)   \* not callable
  ELSE IF m.ok /\ isdeco THEN
    Chk(e.res.k = "ok" /\ e.res.deco = decos, "decorators",
        [W EXCEPT !.fps = PutFn(W.fps, e.id, m.fp), !.decos = PutFn(W.decos, e.id, decos)])
  ELSE IF m.ok THEN Chk(e.res.k = "ok", "footprint-definition", [W EXCEPT !.fps = PutFn(W.fps, e.id, m.fp)])
  ELSE Chk(ExcIn(e.res, DefExc), "footprint-definition-error", W)

StepClass(W, e) ==
  LET d == DefClass(W, e) IN
  IF d.st = "ok" THEN (IF e.res.k # "ok" THEN No(W, "class-definition")
                       ELSE Chk("deco" \notin DOMAIN e.res \/ e.res.deco = DecosOf(W, e.parts), "class-decorators", d.w))
  ELSE Chk(ExcIn(e.res, d.exc), "class-definition-error", d.w)

(* --- lookups --- *)
StepFindAll(W0, e) ==
  LET W == WithCol(W0, e.tag) V == Verdicts(W, e.tag, e.desc) IN
  IF ~FindAllOk(W, V, e.res) THEN No(W, "find-all")
  ELSE Chk(SameDesc(e.dpost, e.desc), "description-changed", Report(Logged(W, e.tag, V, e.res), e.desc))

Created(W, V, desc, e, good, why) ==
  IF ~good THEN No(W, why) ELSE Yes(WithNew(Report(Logged(W, e.tag, V, e.res), desc), V, e.id, e.res))

StepFindAny(W0, e) ==
  LET W == WithCol(W0, e.tag) IN
  IF ~SameDesc(e.dpost, e.desc) THEN No(W, "description-changed")
  ELSE LET V == Verdicts(W, e.tag, e.desc) IN Created(W, V, e.desc, e, FindAnyOk(W, V, e.res), "find-any")
StepFindBest(W0, e) ==
  LET W == WithCol(W0, e.tag) IN
  IF ~SameDesc(e.dpost, e.desc) THEN No(W, "description-changed")
  ELSE LET V == Verdicts(W, e.tag, e.desc) IN Created(W, V, e.desc, e, FindBestOk(W, V, e.res), "find-best")

(* pickup(desc) and load(desc): the object of the description, or else the best candidate *)
StepPickup(W0, e) ==
  LET W == WithCol(W0, e.tag)
      d1 == DropHidden(e.desc)
      D == PairsFn(d1)
      given == e.tag \in DOMAIN D /\ Kind(D[e.tag]) # "n"
      isload == e.op = "load"
      dp == IF isload THEN <<>> ELSE e.dpost
  IN IF isload /\ ~SameDesc(e.dpost, e.desc) THEN No(W, "description-changed")
     ELSE IF given THEN
       LET o == Pay(D[e.tag])
           d2 == Cleaned(W, W.objs[o].cls, d1)
           W2 == Report(W, e.desc)
       IN IF isload
          THEN Chk(IF InDesc(d2, e.tag) THEN e.res.k = "old" /\ e.res.id = o ELSE e.res.k = "none", "load-given", W2)
          ELSE IF e.res.k # "ok" THEN No(W, "pickup-given") ELSE Chk(SameDesc(dp, d2), "pickup-given-description", W2)
     ELSE
       LET V == Verdicts(W, e.tag, d1)
           good == FindBestOk(W, V, e.res)
           d2 == CASE e.res.k = "none" -> PutDesc(d1, e.tag, None)
                   [] e.res.k = "obj" -> Cleaned(W, e.res.cls, PutDesc(d1, e.tag, <<"o", e.id>>))
                   [] OTHER -> d1
       IN IF ~good THEN No(W, e.op)
          ELSE IF ~isload /\ ~SameDesc(dp, d2) THEN No(W, "pickup-description")
          ELSE Created(W, V, d1, e, TRUE, "")

StepDefault(W0, e) ==
  LET W == WithCol(W0, e.tag)
      d1 == DropHidden(e.desc)
      D == PairsFn(d1)
      given == e.tag \in DOMAIN D /\ Kind(D[e.tag]) # "n"
  IN IF ~SameDesc(e.dpost, e.desc) THEN No(W, "description-changed")
     ELSE IF e.res.k = "old" THEN
       (IF given /\ e.res.id = Pay(D[e.tag]) THEN Yes(Report(W, e.desc))
        ELSE Chk(DefaultOk(W, e.tag, e.desc, EmptyFn, e.res), "default-instance", Hold(Report(W, e.desc), e.res.id)))
     ELSE LET V == Verdicts(W, e.tag, d1) IN Created(W, V, d1, e, DefaultOk(W, e.tag, d1, V, e.res), "default")

StepNew(W, e) ==
  IF ~SameDesc(e.dpost, e.desc) THEN No(W, "description-changed") 
  ELSE LET v == Direct(W, e.cls, e.desc) IN Chk(DirectOk(W, e.cls, v, e.res), "instantiation", DirectNew(W, e.cls, v, e.id, e.res))

(* --- copies --- *)
AtPairs(at) == LET ns == SetSeq(DOMAIN at) IN [i \in 1..Len(ns) |-> <<ns[i], at[ns[i]]>>]
RECURSIVE PutPairs(_, _)
PutPairs(d, ps) == IF ps = <<>> THEN d ELSE PutPairs(PutDesc(d, ps[1][1], ps[1][2]), Tail(ps))
StepClone(W, e) ==
  LET o == W.objs[e.src]
      desc == PutPairs(AtPairs(o.at), e.desc)
  IN IF ~SameDesc(e.dpost, e.desc) THEN No(W, "description-changed") 
     ELSE LET v == Direct(W, o.cls, desc) IN IF DirectOk(W, o.cls, v, e.res) /\ e.res.k = "obj" /\ "mark" \in DOMAIN e.res /\ e.res.mark # e.full
                     THEN No(W, "clone-extra")       \* the other attributes of the object follow in full clones only
                     ELSE Chk(DirectOk(W, o.cls, v, e.res), "clone", DirectNew(W, o.cls, v, e.id, e.res))
StepAlmostClone(W0, e) ==   \* collector.almost_clone(original, **extra)
  LET W == WithCol(W0, e.tag)
      at == SeenAt(W.objs[e.src].at)
      desc == DropHidden(PutPairs(AtPairs(at), e.desc))
  IN IF ~SameDesc(e.dpost, e.desc) THEN No(W, "description-changed")
     ELSE LET V == Verdicts(W, e.tag, desc) IN Created(W, V, desc, e, FindBestOk(W, V, e.res), "almost-clone")

RECURSIVE MapObjs(_, _)
MapObjs(v, m) ==
  IF Kind(v) = "o" THEN (IF Pay(v) \in DOMAIN m THEN <<"o", m[Pay(v)]>> ELSE v)
  ELSE IF Kind(v) \in SeqKinds THEN <<Kind(v), [i \in 1..Len(Pay(v)) |-> MapObjs(Pay(v)[i], m)]>>
  ELSE IF Kind(v) \in DictKinds THEN <<Kind(v), [i \in 1..Len(Pay(v)) |-> <<Pay(v)[i][1], MapObjs(Pay(v)[i][2], m)>>]>>
  ELSE v
(* m: the copied objects (all those reachable from the source for a deep copy or a pickle, the source only for a copy) *)
RECURSIVE AddCopies(_, _, _, _, _)
AddCopies(W, m, inner, todo, root) ==
  IF todo = {} THEN W
  ELSE LET o == CHOOSE x \in todo : TRUE
           at == W.objs[o].at
           W1 == NewObj(W, m[o], W.objs[o].cls, [k \in DOMAIN at |-> MapObjs(at[k], inner)])
       IN AddCopies([W1 EXCEPT !.objs[m[o]].held = (o = root)], m, inner, todo \ {o}, root)
StepCopy(W, e) ==
  LET m == e.map
      wanted == IF e.op = "copy" THEN {e.src} ELSE Closure(W, {e.src})
  IN IF e.res.k # "ok" THEN No(W, "copy-failed")
     ELSE Chk(DOMAIN m = wanted, "copy-objects", IF DOMAIN m = wanted THEN AddCopies(W, m, IF e.op = "copy" THEN EmptyFn ELSE m, wanted, e.src) ELSE W)

(* --- attributes --- *)
StepSet(W, e) ==
  LET a == Assign(W, e.obj, e.attr, e.val) IN
  IF a.st = "ok" THEN Chk(e.res.k = "ok", "assignment", [W EXCEPT !.objs[e.obj].at = PutFn(@, e.attr, a.v)])
  ELSE Chk(ExcIn(e.res, a.exc), "assignment-refused", W)
StepDel(W, e) ==
  LET o == W.objs[e.obj]
      acc == W.cls[o.cls].fp.attr[e.attr].access
  IN IF StartsWith(acc, "rwd") /\ e.attr \in DOMAIN o.at
     THEN Chk(e.res.k = "ok", "deletion", [W EXCEPT !.objs[e.obj].at = [k \in DOMAIN o.at \ {e.attr} |-> o.at[k]]])
     ELSE Chk(ExcIn(e.res, {"AttributeError"}), "deletion-refused", W)

StepDrop(W, e) == Yes([W EXCEPT !.objs[e.obj].held = FALSE])

(* --- collectors --- *)
Subset(W, e) ==
  CASE e.crit = "package" -> {c \in W.cols[e.tag].items : InPackage(W, c, e.arg)}
    [] e.crit = "reusable" -> {c \in W.cols[e.tag].items : Reusable(W, c) = e.arg}
    [] e.crit = "shade" -> {c \in W.cols[e.tag].items : SameShade(Shade(W, c), e.arg)}
    [] e.crit = "abstract" -> {c \in W.cols[e.tag].items : W.cls[c].abstract = e.arg}
    [] e.crit = "higher" -> {c \in W.cols[e.tag].items : RankOf(W, c) >= Pos(W.pri.lv, Upper(e.arg))}
    [] e.crit = "lower" -> {c \in W.cols[e.tag].items : RankOf(W, c) < Pos(W.pri.lv, Upper(e.arg))}
LevelTrouble(W, e) == e.crit \in {"higher", "lower"} /\
  (~InLv(W.pri.lv, Upper(e.arg)) \/ \E c \in W.cols[e.tag].items : RankOf(W, c) = 0)
DiscardAll(W, t, S) == [W EXCEPT !.cols[t].items = @ \ S]
LevelExc == {"ValueError", "TypeError", "AttributeError"}
StepFilter(W0, e) ==
  LET W == WithCol(W0, e.tag) IN
  IF LevelTrouble(W, e) THEN Chk(ExcIn(e.res, LevelExc), "filter-level", W)
  ELSE Chk(e.res.k = "set" /\ SeqSet(e.res.l) = Subset(W, e) /\ Len(e.res.l) = Cardinality(Subset(W, e)), "filter", W)
StepDiscard(W0, e) ==
  LET W == WithCol(W0, e.tag) IN
  IF LevelTrouble(W, e) THEN Chk(ExcIn(e.res, LevelExc), "discard-level", W)
  ELSE Chk(e.res.k = "ok", "discard", DiscardAll(W, e.tag, Subset(W, e)))
StepResetLevel(W0, e) ==   \* reset_package_level on one collector (e.tag) or on all of them (e.tag = "")
  LET W == IF e.tag = "" THEN W0 ELSE WithCol(W0, e.tag)
      tags == IF e.tag = "" THEN DOMAIN W.cols ELSE {e.tag}
      S == {c \in UNION {W.cols[t].items : t \in tags} : InPackage(W, c, e.arg)}
  IN IF ~InLv(W.pri.lv, Upper(e.level)) THEN Chk(ExcIn(e.res, {"ValueError"}), "reset-level-unknown", W) ELSE
     Chk(e.res.k = "ok", "reset-level",
         [W EXCEPT !.cls = [c \in DOMAIN W.cls |-> IF c \in S THEN [W.cls[c] EXCEPT !.fp.level = Upper(e.level)] ELSE W.cls[c]]])
StepColOp(W0, e) ==
  LET W == WithCol(W0, e.tag) IN
  CASE e.m = "discard" -> Chk(e.res.k = "ok", "collector-discard", DiscardAll(W, e.tag, {e.cls}))
    [] e.m = "add" -> Chk(e.res.k = "ok", "collector-add", [W EXCEPT !.cols[e.tag].items = @ \cup SeqSet(e.classes)])
    [] e.m = "clear" -> Chk(e.res.k = "ok", "collector-clear", [W EXCEPT !.cols[e.tag].items = {}])
    [] e.m = "pop" -> IF W.cols[e.tag].items = {} THEN Chk(ExcIn(e.res, {"KeyError"}), "collector-pop-empty", W)
                      ELSE Chk(e.res.k = "cls" /\ e.res.c \in W.cols[e.tag].items, "collector-pop",
                               DiscardAll(W, e.tag, {IF e.res.k = "cls" THEN e.res.c ELSE ""}))
    [] e.m = "fasttrack" -> Chk(e.res.k = "ok", "fasttrack", [W EXCEPT !.cols[e.tag].fast = SeqSet(e.attrs)])
    [] e.m = "report" -> Chk(e.res.k = "ok", "report-level", [W EXCEPT !.cols[e.tag].report = e.level])

AllDeclared(W, t, a) == LET cs == SetSeq({c \in W.cols[t].items : a \in DOMAIN W.cls[c].fp.attr}) IN
  UNION {SeqSet(W.cls[cs[i]].fp.attr[a].values) : i \in 1..Len(cs)}
SortedVals(l) == \A i \in 1..(Len(l) - 1) : Orderable(l[i], l[i + 1]) => ~Less(l[i + 1], l[i])
Homogeneous(l) == \A i, j \in 1..Len(l) : Orderable(l[i], l[j])
StepGetValues(W0, e) ==
  LET W == WithCol(W0, e.tag)
      S == AllDeclared(W, e.tag, e.attr)
      l == e.res.l
  IN IF e.res.k # "vals" THEN No(W, "get-values-failed")
     ELSE IF ~(\A x \in S : InVals(x, l)) THEN No(W, "get-values-missing")
     ELSE IF ~(\A i \in 1..Len(l) : \E x \in S : Same(x, l[i])) \/ (\E i, j \in 1..Len(l) : i # j /\ PyEq(l[i], l[j]))
     THEN No(W, "get-values-extra")
     ELSE Chk(Homogeneous(l) => SortedVals(l), "get-values-order", W)

(* attribute map: name (with its [optional] mark) -> entries [name, module, values, outcast] *)
StepAttrMap(W0, e) ==
  LET W == WithCol(W0, e.tag)
      items == W.cols[e.tag].items
      sel(k) == ~e.sel \/ k \in SeqSet(e.only)
      key(c, k) == k \o (IF W.cls[c].fp.attr[k].optional THEN " [optional]" ELSE "")
      want == UNION {{<<key(c, k), c, k>> : k \in {x \in DOMAIN W.cls[c].fp.attr : sel(x)}} : c \in items}
      l == e.res.l
      fits(x, y) == /\ x.key = y[1] /\ x.name = W.cls[y[2]].py /\ x.module = W.cls[y[2]].mod
                    /\ SameSet(x.values, W.cls[y[2]].fp.attr[y[3]].values)
                    /\ SameSet(x.outcast, W.cls[y[2]].fp.attr[y[3]].outcast)
  IN IF e.res.k # "map" THEN No(W, "attrmap-failed")
     ELSE Chk(/\ Len(l) = Cardinality(want)
              /\ \A y \in want : \E i \in 1..Len(l) : fits(l[i], y)
              /\ \A i \in 1..Len(l) : \E y \in want : fits(l[i], y), "attrmap", W)

StepGrep(W0, e) ==   \* on one collector, or on all of them (e.tag = "")
  LET W == IF e.tag = "" THEN W0 ELSE WithCol(W0, e.tag)
      tags == IF e.tag = "" THEN DOMAIN W.cols ELSE {e.tag}
      n(o) == Cardinality({t \in tags : o \in W.cols[t].seen /\ o \in DOMAIN W.objs /\ Agrees(W, o, e.desc)})
      got(o) == Cardinality({i \in 1..Len(e.res.l) : e.res.l[i] = o})
  IN IF e.res.k # "set" THEN No(W, "grep-failed")
     ELSE Chk(/\ \A o \in DOMAIN W.objs : got(o) = n(o)
              /\ \A i \in 1..Len(e.res.l) : e.res.l[i] \in DOMAIN W.objs, "grep", W)

(* --- report of the last lookup of a collector ---
   Views: lists of [c: full name of a class, a: attribute, k: "why" or "only", x: reason];  cls: the classes listed *)
RECURSIVE HasSub(_, _, _)
HasSub(s, x, i) == i + Len(x) - 1 <= Len(s) /\ (SubSeq(s, i, i + Len(x) - 1) = x \/ HasSub(s, x, i + 1))
StepReport(W0, e) ==
  LET W == WithCol(W0, e.tag)
      R == W.cols[e.tag].rep
      r == e.res
      D == SeqSet(r.dict)
      tried == SeqSet(r.cls)
      of(c) == {x \in D : x.c = R.name[c]}
      true(c, x) == IF x.k = "only" THEN <<x.a, x.x>> \in R.V[c].only
                    ELSE x.k = "why" /\ x.a \in DOMAIN R.V[c].why /\ x.x \in R.V[c].why[x.a]
      typ(t, y) == y = <<"s", t>> \/ y = <<"s", "?">>
      argis(z, y) == CASE z.k = "none" -> Kind(y) = "n"
                       [] z.k = "type" -> typ(z.t, y)
                       [] z.k = "val" -> Kind(z.v) \in {"o", "O"} \/ Same(z.v, y)
                       [] z.k = "conv" -> /\ Kind(y) = "t" /\ Len(Pay(y)) = 2 /\ typ(z.t, Pay(y)[1])
                                          /\ IsStr(z.v) \/ Kind(z.v) = "i" => Pay(y)[2] = <<"s", Pay(z.v)>>
      argsok(c, x) == IF x.k = "only"
                      THEN \E z \in R.V[c].onlyargs :
                             /\ z[1] = x.a /\ z[2] = x.x
                             /\ IF x.x = OnlyNotFound THEN x.v = <<"s", z[3]>>
                                ELSE /\ Kind(x.v) = "l" /\ Len(Pay(x.v)) = Len(z[4])
                                     /\ \A i \in 1..Len(z[4]) : \E j \in 1..Len(z[4]) : Same(z[4][i], Pay(x.v)[j])
                      ELSE \E z \in R.V[c].args : z[1] = x.a /\ z[2] = x.x /\ argis(z[3], x.v)
      sure(c) == R.V[c].errs = {} /\ ~R.V[c].rej
      noattr(c) == DOMAIN R.V[c].why = {}
  IN IF R.k = "none" THEN Chk(r.k = "none", "report-unexpected", W)
     ELSE IF R.k = "unk" /\ r.k = "none" THEN Yes(W)
     ELSE IF r.k # "report" THEN No(W, "report-absent")
     ELSE IF ~(SeqSet(r.fields) \subseteq {"why", "only", "args"}) THEN No(W, "report-views")
     ELSE IF ~(\A v \in {"log", "xml", "light"} : SeqSet(r[v]) = D /\ Len(r[v]) = Len(r.dict) /\ SeqSet(r[v \o "cls"]) = tried)
          THEN No(W, "report-views")
     ELSE IF ~(\A v \in {"flat", "soft", "ordered", "dumper"} : SeqSet(r[v]) = D /\ Len(r[v]) = Len(r.dict)) THEN No(W, "report-views")
     ELSE IF ~(/\ SeqSet(r.why) = {x \in D : HasSub(Lower(x.c), Lower(e.sel), 1)} /\ Len(r.why) = Cardinality(SeqSet(r.why))
               /\ SeqSet(r.whycls) = {x.c : x \in SeqSet(r.why)}) THEN No(W, "report-whynot")
     ELSE IF "printed" \in DOMAIN r /\ r.printed.some /\ ~(SeqSet(r.printed.l) = D /\ Len(r.printed.l) = Len(r.dict)) THEN No(W, "report-printed")
     ELSE IF R.k = "unk" THEN Yes(W)
     ELSE IF "printed" \in DOMAIN r /\ r.printed.some # (r.printed.want /\ W.cols[e.tag].report # 0) THEN No(W, "report-printed")
     ELSE IF ~(tried \subseteq {R.name[c] : c \in DOMAIN R.V} /\ Len(r.cls) = Cardinality(tried)) THEN No(W, "report-classes")
     ELSE IF ~R.fast /\ ~R.part /\ tried # {R.name[c] : c \in DOMAIN R.V} THEN No(W, "report-missing-class")
     ELSE IF \E c \in DOMAIN R.V : \E x \in of(c) : ~true(c, x) THEN No(W, "report-false-reason")
     ELSE IF \E c \in DOMAIN R.V : \E x \in SeqSet(r.args) : x.c = R.name[c] /\ ~argsok(c, x) THEN No(W, "report-args")
     ELSE IF \E c \in DOMAIN R.V : R.name[c] \in tried /\ ~noattr(c)
               /\ (IF R.failed THEN of(c) = {} ELSE IF of(c) = {} THEN R.V[c].oks = {} ELSE sure(c)) THEN No(W, "report-no-reason")
     ELSE IF \E c \in DOMAIN R.V : R.name[c] \in tried /\ ~(R.V[c].must \subseteq {x.a : x \in {y \in of(c) : y.x = Missing}})
          THEN No(W, "report-missing-value")
     ELSE Yes(W)

(* --- names: collectors table, proxy --- *)
StepTag(W0, e) ==   \* collectors.get(tag=e.name), whatever the case and the plural form
  LET t == TagClean(e.name) W == WithCol(W0, t) IN Chk(e.res.k = "tag" /\ e.res.t = t, "collector-tag", W)
StepProxy(W, e) ==   \* getattr(proxy, e.name)
  LET n == e.name
      t == RStripC(n, "s")
      found == t \in DOMAIN W.cols /\ ~StartsWith(n, "_")
  IN IF ~found THEN Chk(e.res.k = "none" \/ ExcIn(e.res, {"AttributeError"}), "proxy-unknown", W)
     ELSE IF EndsWith(n, "s") THEN Chk(e.res.k = "col" /\ e.res.t = t, "proxy-collector", W)
     ELSE Chk(e.res.k = "load" /\ e.res.t = t, "proxy-load", W)
StepProxyHas(W, e) == LET has == RStripC(e.name, "s") \in DOMAIN W.cols IN
  Chk(e.res.k = "bool" /\ e.res.b = has /\ e.res.got = (IF has THEN "col:" \o RStripC(e.name, "s") ELSE "none"), "proxy-contains", W)
StepAddProxy(W, e) ==
  LET names(t) == {t, t \o "s"}
      what(n) == IF n \in DOMAIN W.cols THEN "load:" \o n ELSE "col:" \o RStripC(n, "s")
      all == UNION {names(t) : t \in DOMAIN W.cols}
      old == IF e.id \in DOMAIN W.proxies THEN W.proxies[e.id].at ELSE [n \in SeqSet(e.own) |-> "own"]
      at == [n \in DOMAIN old \cup all |-> IF n \in DOMAIN old /\ ~(e.clear /\ n \in all) THEN old[n] ELSE what(n)]
  IN Chk(e.res.k = "ok", "add-proxy", [W EXCEPT !.proxies = PutFn(W.proxies, e.id, [at |-> at])])

(* listings of the collectors, of their objects, of the classes *)
Counted(W, t) == Cardinality(W.cols[t].items)
StepListing(W, e) ==
  LET r == e.res
      n == Cardinality(DOMAIN W.cols)
      names == {t \o "s" : t \in DOMAIN W.cols}
      ofname(x) == SubSeq(x, 1, Len(x) - 1)
      each(p(_)) == Len(r.l) = n /\ {r.l[i].name : i \in 1..Len(r.l)} = names /\ \A i \in 1..Len(r.l) : p(r.l[i])
      inorder == \A i \in 1..(Len(r.l) - 1) : StrLess(r.l[i].name, r.l[i + 1].name)
  IN IF r.k # "list" THEN No(W, "listing-failed")
     ELSE CASE e.m \in {"catlist", "cat", "call"} ->
                 Chk(each(LAMBDA x : x.n = Counted(W, ofname(x.name)) /\ x.t = ofname(x.name)) /\ inorder, "listing", W)
            [] e.m = "objects" ->
                 Chk(each(LAMBDA x : x.n = Cardinality(W.cols[ofname(x.name)].seen)) /\ inorder, "listing-objects", W)
            [] e.m = "objectsmap" ->
                 Chk(each(LAMBDA x : SeqSet(x.o) = W.cols[ofname(x.name)].seen /\ Len(x.o) = Cardinality(SeqSet(x.o))), "listing-objects", W)
            [] e.m \in {"iter", "keys", "values", "items"} ->
                 Chk(Len(r.l) = n /\ SeqSet(r.l) = DOMAIN W.cols, "listing", W)
            [] e.m = "classes" ->
                 LET S == UNION {W.cols[t].items : t \in DOMAIN W.cols} IN
                 Chk(SeqSet(r.l) = S /\ Len(r.l) = Cardinality(S), "listing-classes", W)
StepLevels(W, e) ==     \* table of the collected classes whose level is at least e.level
  LET S == UNION {W.cols[t].items : t \in DOMAIN W.cols}
      T == {c \in S : RankOf(W, c) >= Pos(W.pri.lv, Upper(e.level))}
      bad == ~InLv(W.pri.lv, Upper(e.level)) \/ \E c \in S : RankOf(W, c) = 0
      l == e.res.l
      line(c) == [level |-> W.cls[c].fp.level, name |-> FullName(W.cls[c])]
  IN IF bad THEN Chk(ExcIn(e.res, LevelExc), "levels-table-refused", W)
     ELSE IF e.res.k # "list" THEN No(W, "levels-table")
     ELSE Chk(/\ Len(l) = Cardinality(T)
              /\ \A c \in T : Cardinality({i \in 1..Len(l) : l[i] = line(c)}) = Cardinality({d \in T : line(d) = line(c)})
              /\ \A i \in 1..(Len(l) - 1) : ~StrLess(l[i + 1].name, l[i].name), "levels-table", W)
StepShow(W0, e) ==      \* printed tables of the attributes of a collector
  LET W == WithCol(W0, e.tag)
      sel(k) == ~e.sel \/ k \in SeqSet(e.only)
      want == UNION {{[attr |-> k, opt |-> W.cls[c].fp.attr[k].optional, name |-> W.cls[c].py, mod |-> W.cls[c].mod, c |-> c] :
                        k \in {x \in DOMAIN W.cls[c].fp.attr : sel(x)}} : c \in W.cols[e.tag].items}
      keys == {[attr |-> x.attr, opt |-> x.opt] : x \in want}
      l == e.res.l
      line(x) == [attr |-> x.attr, opt |-> x.opt, name |-> x.name, mod |-> x.mod]
  IN IF e.res.k # "list" THEN No(W, "show-failed")
     ELSE IF e.m = "keys" THEN Chk(SeqSet(l) = keys /\ Len(l) = Cardinality(keys), "show-keys", W)
     ELSE Chk(/\ Len(l) = Cardinality(want)
              /\ \A x \in want : Cardinality({i \in 1..Len(l) : l[i] = line(x)}) = Cardinality({y \in want : line(y) = line(x)}), "show-map", W)

(* generated documentation of a footprint *)
DocTypes == [str |-> "builtins.str", int |-> "builtins.int", float |-> "builtins.float", bool |-> "builtins.bool", list |-> "builtins.list",
             dict |-> "builtins.dict", set |-> "builtins.set", tuple |-> "builtins.tuple", object |-> "builtins.object",
             Foo |-> "vhtypes.Foo", FooSub |-> "vhtypes.FooSub", Up |-> "vhtypes.Up", FPStr |-> "footprints.stdtypes.FPStr",
             FPList |-> "footprints.stdtypes.FPList", FPDict |-> "footprints.stdtypes.FPDict", FPSet |-> "footprints.stdtypes.FPSet",
             FPTuple |-> "footprints.stdtypes.FPTuple"]
VisRank(a) == LET v == a.vis IN IF v = "DEFAULT" THEN 0 ELSE IF v = "ADVANCED" THEN 1 ELSE 2
ZOrder(a) == a.z
DocBefore(fp, a, b) ==
  LET x == fp.attr[a] y == fp.attr[b] IN
  \/ VisRank(x) < VisRank(y)
  \/ VisRank(x) = VisRank(y) /\ (ZOrder(x) > ZOrder(y) \/ (ZOrder(x) = ZOrder(y) /\ StrLess(a, b)))
StepDoc(W, e) ==
  LET fp == IF e.name \in DOMAIN W.fps THEN W.fps[e.name] ELSE W.cls[e.name].fp
      r == e.res
      typ(a) == LET t == Fld(a, "typ", "str") IN IF t \in DOMAIN W.cls THEN FullName(W.cls[t]) ELSE DocTypes[t]
      line(k) == LET a == fp.attr[k] IN
        [n |-> k, typ |-> typ(a), access |-> a.access, info |-> Fld(a, "info", "Not documented, sorry."), optional |-> a.optional,
         values |-> a.values # <<>>, outcast |-> a.outcast # <<>>, remap |-> a.remap # <<>>, args |-> "args" \in DOMAIN a /\ a.args # <<>>]
      names == {fp.only[i][1] : i \in 1..Len(fp.only)}
      alia == UNION {fp.attr[k].alias : k \in DOMAIN fp.attr}
  IN IF ~InLv(W.pri.lv, fp.level) /\ ExcIn(r, LevelExc) THEN Yes(W)
     ELSE IF r.k # "doc" THEN No(W, "doc-failed")
     ELSE IF ~(Len(r.attrs) = Cardinality(DOMAIN fp.attr) /\ {r.attrs[i].n : i \in 1..Len(r.attrs)} = DOMAIN fp.attr) THEN No(W, "doc-attributes")
     ELSE IF ~(\A i \in 1..Len(r.attrs) : r.attrs[i] = line(r.attrs[i].n)) THEN No(W, "doc-content")
     ELSE IF ~(\A i \in 1..(Len(r.attrs) - 1) : DocBefore(fp, r.attrs[i].n, r.attrs[i + 1].n)) THEN No(W, "doc-order")
     ELSE IF ~(SeqSet(r.only) = names /\ Len(r.only) = Cardinality(names)) THEN No(W, "doc-only")
     ELSE IF ~({r.alias[i][1] : i \in 1..Len(r.alias)} = alia
               /\ \A i \in 1..Len(r.alias) : r.alias[i][2] \in DOMAIN fp.attr /\ r.alias[i][1] \in fp.attr[r.alias[i][2]].alias) THEN No(W, "doc-alias")
     ELSE Chk(r.info = fp.info /\ r.level = fp.level, "doc-header", W)

(* --- priorities --- *)
StepPrio(W, e) ==
  LET x == POp(W.pri, [m |-> e.m, a |-> e.a])
      W2 == [W EXCEPT !.pri = x.p]
  IN IF x.r[1] = "exc" THEN Chk(ExcIn(e.res, x.r[2]), "priority-error", W2)
     ELSE IF e.res.k # "ok" THEN No(W2, "priority-failed")
     ELSE Chk(IF e.m = "freezed" THEN {e.res.v[i] : i \in 1..Len(e.res.v)} = x.r[2] /\ Len(e.res.v) = Cardinality(x.r[2])
              ELSE e.res.v = x.r[2], "priority-result", W2)

(* --- setups --- *)
LowPairs(ps) == PairsFn([i \in 1..Len(ps) |-> <<Lower(ps[i][1]), ps[i][2]>>])
NewDef(old, e) ==
  CASE e.m = "replace" -> LowPairs(e.pairs)
    [] e.m = "update" -> Override(old, LowPairs(e.pairs))
    [] e.m = "set" -> Override(old, LowPairs(e.pairs))
    [] e.m = "del" -> [k \in DOMAIN old \ {Lower(e.pairs[1][1])} |-> old[k]]
    [] OTHER -> old
(* the defaults can be given as (the defaults of) another setup: their content is copied *)
DefOf(W, s) == IF s = "" THEN W.setup.def ELSE W.setups[s]
StepSetup(W, e0) ==
  LET e == IF "of" \in DOMAIN e0 THEN [e0 EXCEPT !.pairs = AtPairs(DefOf(W, e0.of))] ELSE e0 IN
  IF e.m \in {"replace", "update", "set", "del"} THEN
    LET known == e.m # "del" \/ Lower(e.pairs[1][1]) \in (IF e.setup = "" THEN DOMAIN W.setup.def ELSE DOMAIN W.setups[e.setup]) IN
    IF ~known THEN Chk(ExcIn(e.res, {"KeyError"}), "setup-del-unknown", W)
    ELSE Chk(e.res.k = "ok", "setup-defaults",
             IF e.setup = "" THEN [W EXCEPT !.setup.def = NewDef(@, e)]
             ELSE [W EXCEPT !.setups[e.setup] = NewDef(@, e)])
  ELSE CASE e.m = "get" -> Chk(e.res.k = "ok", "setup-get",     \* config.get(tag=e.setup, defaults=...): created once
               IF e.setup \in DOMAIN W.setups THEN W ELSE [W EXCEPT !.setups = PutFn(@, e.setup, LowPairs(e.pairs))])
         [] e.m = "derive" ->      \* config.setup(tag=..., ...): the same values, except the given ones (nothing when it already exists)
              Chk(e.res.k = "ok", "setup-derive",
                  IF e.setup \in DOMAIN W.setups THEN W
                  ELSE [W EXCEPT !.setups = PutFn(@, e.setup, IF "pairs" \in DOMAIN e0 THEN LowPairs(e.pairs) ELSE DefOf(W, e.src))])
         [] e.m = "extras" -> Chk(e.res.k = "ok", "setup-extras", [W EXCEPT !.setup.ext = PairsFn(e.pairs)])
         [] e.m = "extended" -> Chk(e.res.k = "ok", "setup-extended", [W EXCEPT !.setup.extended = e.flag])
         [] e.m = "fastmode" -> Chk(e.res.k = "ok", "setup-fastmode", [W EXCEPT !.setup.fast = e.flag])
         [] e.m = "fastkeys" -> Chk(e.res.k = "ok", "setup-fastkeys", [W EXCEPT !.setup.fastkeys = @ \cup SeqSet(e.names)])      \* (the classes remember the keys they were defined with)
         [] e.m = "report" -> Chk(e.res.k = "ok", "setup-report", [W EXCEPT !.setup.report = e.level])
         [] e.m = "neutral" -> Chk(e.res.k = "ok", "setup-neutral", W)   \* docstrings, report style, length of reports...
         [] e.m = "lookup" ->   \* reading of one default, in any case
              LET def == IF e.setup = "" THEN W.setup.def ELSE W.setups[e.setup] k == Lower(e.name) IN
              IF k \in DOMAIN def THEN Chk(e.res.k = "val" /\ Same(e.res.v, def[k]), "setup-lookup", W)
              ELSE Chk(ExcIn(e.res, {"KeyError"}), "setup-lookup-unknown", W)

(* --- footprint of a class or of an object: queries --- *)
StepQuery(W, e) ==
  LET fp == W.cls[e.cls].fp IN
  CASE e.m = "mandatory" -> Chk(e.res.k = "set" /\ SeqSet(e.res.l) = Mandatory(fp), "mandatory", W)
    [] e.m = "optional" -> Chk(e.res.k = "bool" /\ e.res.b = fp.attr[e.attr].optional, "optional", W)
    [] e.m = "allkeys" -> Chk(e.res.k = "set" /\ SeqSet(e.res.l) = AllKeys(fp), "allkeys", W)
    [] e.m = "values" -> Chk(e.res.k = "vals" /\ SameSet(e.res.l, fp.attr[e.attr].values), "values", W)
    [] e.m = "level" -> Chk(e.res.k = "str" /\ e.res.s = fp.level, "level", W)
    [] e.m = "outcast" -> Chk(e.res.k = "vals" /\ SameSet(e.res.l, fp.attr[e.attr].outcast), "outcast", W)
    [] e.m = "access" -> Chk(e.res.k = "str" /\ e.res.s = fp.attr[e.attr].access, "access", W)
    [] e.m = "info" -> Chk(e.res.k = "str" /\ e.res.s = fp.info, "info", W)
    [] e.m = "clskind" -> Chk(e.res.k = "str" /\ e.res.s = Lower(W.cls[e.cls].py), "class-kind", W)
    [] e.m = "fullname" -> Chk(e.res.k = "str" /\ e.res.s = FullName(W.cls[e.cls]), "class-name", W)
    [] e.m = "realkind" -> Chk(e.res.k = "str" /\ e.res.s = "footprintbase", "class-kind", W)
    [] e.m = "abstract" -> Chk(e.res.k = "bool" /\ e.res.b = W.cls[e.cls].abstract, "class-flags", W)
    [] e.m = "reusable" -> Chk(e.res.k = "bool" /\ e.res.b = Reusable(W, e.cls), "class-flags", W)
    [] e.m = "asdict" -> Chk(e.res.k = "ok", "footprint-copy", W)     \* the copies are altered: the footprint is not
    [] e.m = "track" -> LET names == [i \in 1..Len(e.desc) |-> e.desc[i][1]] IN
         Chk(e.res.k = "set" /\ e.res.l = SelectSeq(names, LAMBDA n : n \in AllKeys(fp)), "track", W)
    [] e.m = "couldbe" ->
         LET v == Verdict(fp, e.desc, Env(W), TRUE) IN
         IF ~SameDesc(e.dpost, e.desc) THEN No(W, "description-changed") ELSE
         CASE e.res.k = "exc" -> Chk(e.res.x \in v.errs, "couldbe-error", Report(W, e.desc))
           [] e.res.k = "no" -> Chk(v.rej, "couldbe-rejected", Report(W, e.desc))
           [] e.res.k = "yes" -> Chk(\E x \in v.oks : SameAt(x.at, e.res.at) /\ x.inp = SeqSet(e.res.inp), "couldbe", Report(W, e.desc))
           [] OTHER -> No(W, "couldbe-result")

(* the content of a (deep) copied object appears as <<"O", <<class, pairs>>>> (<<"O*", class>> when it is not shown) *)
RECURSIVE SameDeep(_, _, _)
SameDeep(W, a, b) ==
  IF Kind(a) = "o"
  THEN \/ Kind(b) = "O*" /\ Pay(b) = W.objs[Pay(a)].cls
       \/ /\ Kind(b) = "O" /\ Pay(b)[1] = W.objs[Pay(a)].cls
          /\ LET at == SeenAt(W.objs[Pay(a)].at) x == PairsFn(Pay(b)[2])
             IN DOMAIN at = DOMAIN x /\ \A k \in DOMAIN at : SameDeep(W, at[k], x[k])
  ELSE IF Kind(a) \in {"l", "L", "t", "T"}
  THEN Kind(b) = Kind(a) /\ Len(Pay(a)) = Len(Pay(b)) /\ \A i \in 1..Len(Pay(a)) : SameDeep(W, Pay(a)[i], Pay(b)[i])
  ELSE IF Kind(a) \in DictKinds
  THEN Kind(b) = Kind(a) /\ Len(Pay(a)) = Len(Pay(b))
       /\ \A i \in 1..Len(Pay(a)) : \E j \in 1..Len(Pay(b)) :
            Same(Pay(a)[i][1], Pay(b)[j][1]) /\ SameDeep(W, Pay(a)[i][2], Pay(b)[j][2])
  ELSE Same(a, b)

(* exports of an object: dictionaries of its attributes; a class may have its own way of exporting an attribute (hook) *)
RECURSIVE HookOf(_, _, _)
HookOf(W, mro, k) == IF mro = <<>> THEN "" ELSE IF k \in Cls(W, mro[1]).hooks THEN mro[1] ELSE HookOf(W, Tail(mro), k)
RECURSIVE SameExport(_, _, _)
SameExport(W, o, x) ==
  LET at == SeenAt(W.objs[o].at) IN
  /\ DOMAIN x = DOMAIN at
  /\ \A k \in DOMAIN at :
       LET h == HookOf(W, W.cls[W.objs[o].cls].mro, k) v == at[k] y == x[k] IN
       IF h # "" THEN y = <<"s", "hook-" \o h \o "-" \o k>>
       ELSE CASE Kind(v) = "E" -> /\ Kind(y) = "l" /\ SameSet(Pay(y), Pay(v)) /\ Len(Pay(y)) = Len(Pay(v))
                                  /\ (Homogeneous(Pay(y)) => SortedVals(Pay(y)))
              [] Kind(v) = "o" -> Kind(y) = "d" /\ SameExport(W, Pay(v), PairsFn([i \in 1..Len(Pay(y)) |-> <<Pay(Pay(y)[i][1]), Pay(y)[i][2]>>]))
              [] Kind(v) = "G" -> Same(y, <<"l", <<SV("sub"), SV(Pay(v))>>>>)      \* its export_dict method
              [] OTHER -> SameDeep(W, v, y)
(* *)
StepExport(W, e) ==
  LET at == SeenAt(W.objs[e.obj].at) IN
  IF e.res.k # "at" THEN No(W, "export-failed")
  ELSE CASE e.m = "shallow" -> Chk(SameAt(e.res.at, at), "export-dict", W)
         [] e.m = "dict" -> Chk(DOMAIN e.res.at = DOMAIN at /\ \A k \in DOMAIN at : SameDeep(W, at[k], e.res.at[k]), "export-dict", W)
         [] e.m = "export" ->
              Chk(SameExport(W, e.obj, e.res.at), "export", W)
         [] e.m = "undefs" -> Chk(DOMAIN e.res.at = {k \in DOMAIN at : Kind(at[k]) = "n"}, "undefs", W)

Dispatch0(W, e) ==
  CASE e.op = "fp" -> StepFootprint(W, e)
    [] e.op = "cls" -> StepClass(W, e)
    [] e.op = "find_all" -> StepFindAll(W, e)
    [] e.op = "find_any" -> StepFindAny(W, e)
    [] e.op = "find_best" -> StepFindBest(W, e)
    [] e.op \in {"pickup", "load"} -> StepPickup(W, e)
    [] e.op = "default" -> StepDefault(W, e)
    [] e.op = "new" -> StepNew(W, e)
    [] e.op = "clone" -> StepClone(W, e)
    [] e.op = "aclone" -> StepAlmostClone(W, e)
    [] e.op \in {"copy", "deepcopy", "pickle"} -> StepCopy(W, e)
    [] e.op = "set" -> StepSet(W, e)
    [] e.op = "del" -> StepDel(W, e)
    [] e.op = "drop" -> StepDrop(W, e)
    [] e.op = "revalue" ->    \* a lazy default of a class gets another value
         Yes([W EXCEPT !.cls[e.cls].fp.attr[e.attr].default = <<"V", e.val>>])
    [] e.op = "copymess" -> Chk(e.res.k = "ok", "copy-failed", W)
    [] e.op = "mkfoo" -> Yes([W EXCEPT !.foos = @ \cup {e.foo}])
    [] e.op = "dropfoo" -> Yes([W EXCEPT !.foos = @ \ {e.foo}])
    [] e.op = "filter" -> StepFilter(W, e)
    [] e.op = "discard" -> StepDiscard(W, e)
    [] e.op = "resetlevel" -> StepResetLevel(W, e)
    [] e.op = "col" -> StepColOp(W, e)
    [] e.op = "values" -> StepGetValues(W, e)
    [] e.op = "attrmap" -> StepAttrMap(W, e)
    [] e.op = "grep" -> StepGrep(W, e)
    [] e.op = "tag" -> StepTag(W, e)
    [] e.op = "proxy" -> StepProxy(W, e)
    [] e.op = "proxyhas" -> StepProxyHas(W, e)
    [] e.op = "addproxy" -> StepAddProxy(W, e)
    [] e.op = "prio" -> StepPrio(W, e)
    [] e.op = "setup" -> StepSetup(W, e)
    [] e.op = "query" -> StepQuery(W, e)
    [] e.op = "export" -> StepExport(W, e)
    [] e.op = "report" -> StepReport(W, e)
    [] e.op = "listing" -> StepListing(W, e)
    [] e.op = "levels" -> StepLevels(W, e)
    [] e.op = "show" -> StepShow(W, e)
    [] e.op = "doc" -> StepDoc(W, e)
    [] e.op = "raw" -> Chk(ExcIn(e.res, {"AttributeError"}), "unauthorised", W)      \* direct change of an attribute, without authorisation
    [] OTHER -> No(W, "unknown-operation")
\* whatever the call, the reports may keep the values it was given and which some class refuses
Dispatch(W, e) == LET s == Dispatch0(W, e) IN
  IF ~s.ok \/ "desc" \notin DOMAIN e \/ e.op = "query" THEN s
  ELSE LET fs == DescFoos(W, e.desc) IN IF fs = {} THEN s ELSE [s EXCEPT !.w.maybe = @ \cup fs]

(* ------------------------------------------------------------------ *)
(* Observation of the whole state after a call.  obs gives the parts whose observed value changed:
     fp: footprints of classes and named footprints;  col: collectors;  lv: levels;  set: defaults;
     obj: attributes of the held objects;  prx: proxies                                              *)
SamePairsVal(a, b) == /\ Len(a) = Len(b)
                      /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : Same(a[i][1], b[j][1]) /\ Same(a[i][2], b[j][2])
SameArgs(a, b) == /\ Len(a) = Len(b) /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : a[i][1] = b[j][1] /\ Same(a[i][2], b[j][2])
SameAttrDef(d, x) ==   \* d: specified, x: observed
  /\ DOMAIN d \cap {"typ", "args", "isclass"} = DOMAIN x \cap {"typ", "args", "isclass"}
  /\ Same(d.default, x.default) /\ d.optional = x.optional /\ d.access = x.access
  /\ d.alias = SeqSet(x.alias)
  /\ SameSet(d.values, x.values) /\ SameSet(d.outcast, x.outcast)
  /\ SamePairsVal(d.remap, x.remap)
  /\ ("typ" \in DOMAIN d => d.typ = x.typ)
  /\ ("args" \in DOMAIN d => SameArgs(d.args, x.args))
  /\ ("isclass" \in DOMAIN d => d.isclass = x.isclass)
SameOnly(a, b) == /\ Len(a) = Len(b)
                  /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ Len(a[i][2]) = Len(b[i][2])
                                          /\ \A j \in 1..Len(a[i][2]) : Same(a[i][2][j], b[i][2][j])
SameFp(f, x) == /\ DOMAIN f.attr = DOMAIN x.attr
                /\ \A k \in DOMAIN f.attr : SameAttrDef(f.attr[k], x.attr[k])
                /\ SameOnly(f.only, x.only)
                /\ f.level = x.level /\ f.info = x.info

FooTags(v) == IF Kind(v) \in {"F", "G"} THEN {Pay(v)} ELSE {}
FooLive(W, tag, live) ==
  \/ tag \in W.foos
  \/ \E o \in live : \E k \in DOMAIN W.objs[o].at : ~WeakAttr(W, W.objs[o].cls, k) /\ tag \in FooTags(W.objs[o].at[k])
  \/ \E c \in DOMAIN W.cls : \E k \in DOMAIN W.cls[c].fp.attr : tag \in FooTags(W.cls[c].fp.attr[k].default)
Dead == <<"dead", "">>
ObjSeen(W, o, x, live) ==   \* x: observed attributes of the object o
  LET at == W.objs[o].at IN
  /\ DOMAIN x = DOMAIN at
  /\ \A k \in DOMAIN at :
       IF WeakAttr(W, W.objs[o].cls, k) /\ Kind(at[k]) \in {"F", "G"} /\ ~FooLive(W, Pay(at[k]), live) THEN x[k] = Dead \/ (Pay(at[k]) \in W.maybe /\ Same(x[k], at[k]))
       ELSE IF WeakAttr(W, W.objs[o].cls, k) /\ Kind(at[k]) = "o" /\ Pay(at[k]) \notin live
            THEN x[k] = Dead \/ Pay(at[k]) \in W.maybe
       ELSE Same(x[k], ReadV(at[k]))

FpOf(W, n) == IF n \in DOMAIN W.fps THEN W.fps[n] ELSE W.cls[n].fp
FpNames(W) == DOMAIN W.fps \cup DOMAIN W.cls

(* an attribute declared for the fast track is used, except when the classes which restrict it do not agree on its type *)
FastDisagree(W, a) ==
  LET S == {c \in DOMAIN W.cls : LET f == W.cls[c].fp IN
              a \in DOMAIN f.attr /\ ~f.attr[a].optional /\ f.attr[a].values # <<>> /\ f.attr[a].remap = <<>>}
      typ(c) == LET d == W.cls[c].fp.attr[a] IN <<Fld(d, "typ", "str"), Fld(d, "args", <<>>)>>
  IN \E c \in S : \E d \in S : typ(c) # typ(d)
FastOk(W, t, F) == F \subseteq W.cols[t].fast /\ \A a \in W.cols[t].fast \ F : FastDisagree(W, a)

(* the first broken clause, or "" *)
First(a, b) == IF a # "" THEN a ELSE b
Obs(W0, W, obs) ==
  LET fpbad == {n \in FpNames(W) :
                  IF n \in DOMAIN obs.fp THEN ~SameFp(FpOf(W, n), obs.fp[n])
                  ELSE ~(n \in FpNames(W0) /\ FpOf(W0, n) = FpOf(W, n))}
      colbad == {t \in DOMAIN W.cols :
                  IF t \in DOMAIN obs.col
                  THEN ~(/\ SeqSet(obs.col[t].items) = W.cols[t].items
                         /\ Len(obs.col[t].items) = Cardinality(W.cols[t].items)
                         /\ SeqSet(obs.col[t].abs) = W.cols[t].abs
                         /\ FastOk(W, t, SeqSet(obs.col[t].fast)))
                  ELSE ~(/\ t \in DOMAIN W0.cols /\ W0.cols[t].items = W.cols[t].items /\ W0.cols[t].abs = W.cols[t].abs
                         /\ FastOk(W, t, W0.cols[t].fast))}
      colextra == DOMAIN obs.col \ DOMAIN W.cols
      live == Live(W)
      mayb == MaybeLive(W)
      fast(t) == IF t \in DOMAIN obs.col THEN SeqSet(obs.col[t].fast) ELSE W0.cols[t].fast
      seen(t) == IF t \in DOMAIN obs.col THEN SeqSet(obs.col[t].inst) ELSE W0.cols[t].seen
      instbad == {t \in DOMAIN W.cols : ~(/\ Tracked(W, t, live) \subseteq seen(t)
                                          /\ seen(t) \subseteq Tracked(W, t, mayb))}
      lvbad == IF "levels" \in DOMAIN obs.lv
               THEN obs.lv.levels # W.pri.lv \/ SeqSet(obs.lv.frozen) # DOMAIN W.pri.fz
               ELSE W.pri.lv # W0.pri.lv \/ DOMAIN W.pri.fz # DOMAIN W0.pri.fz
      setbad == {n \in DOMAIN W.setups \cup {""} :
                  LET d == IF n = "" THEN W.setup.def ELSE W.setups[n]
                      d0 == IF n = "" THEN W0.setup.def ELSE IF n \in DOMAIN W0.setups THEN W0.setups[n] ELSE EmptyFn
                      nn == "@" \o n
                  IN IF nn \in DOMAIN obs.set THEN ~SameAt(obs.set[nn], d) ELSE d # d0}
                \cup (IF IF "#" \in DOMAIN obs.set THEN ~SameAt(obs.set["#"], W.setup.ext) ELSE W.setup.ext # W0.setup.ext
                       THEN {"#"} ELSE {})
      held == {o \in DOMAIN W.objs : W.objs[o].held}
      objbad == {o \in held :
                  IF o \in DOMAIN obs.obj THEN ~ObjSeen(W, o, obs.obj[o], live)
                  ELSE ~(/\ o \in DOMAIN W0.objs /\ W0.objs[o].held
                         /\ \/ /\ SeenAt(W0.objs[o].at) = SeenAt(W.objs[o].at)
                               /\ \A k \in DOMAIN W.objs[o].at : ~WeakAttr(W, W.objs[o].cls, k)
                            \/ ObjSeen(W, o, W.lastseen[o], live))}
      prxbad == {p \in DOMAIN W.proxies :
                  IF p \in DOMAIN obs.prx THEN obs.prx[p] # W.proxies[p].at
                  ELSE ~(p \in DOMAIN W0.proxies /\ W0.proxies[p].at = W.proxies[p].at)}
      why == CASE fpbad # {} -> "state-footprint" [] colbad # {} -> "state-collector" [] colextra # {} -> "state-new-collector"
               [] instbad # {} -> "state-instances" [] lvbad -> "state-levels" [] setbad # {} -> "state-defaults"
               [] objbad # {} -> "state-object" [] prxbad # {} -> "state-proxy" [] OTHER -> ""
      which == CASE fpbad # {} -> fpbad [] colbad # {} -> colbad [] colextra # {} -> colextra [] instbad # {} -> instbad
                 [] setbad # {} -> setbad [] objbad # {} -> objbad [] prxbad # {} -> prxbad [] OTHER -> {}
  IN [why |-> why, which |-> which,
      w |-> IF why # "" THEN W
            ELSE [W EXCEPT !.cols = [t \in DOMAIN W.cols |-> [W.cols[t] EXCEPT !.seen = seen(t), !.fast = fast(t)]],
                           !.lastseen = Override(W.lastseen, obs.obj)]]
=============================================================================
