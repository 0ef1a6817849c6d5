------------------------------- MODULE FPLog -------------------------------
(* Footprint logs: bounded sequences of collector entries, each holding class entries, each holding attribute items.

   W.kept   objects described in a log which is not weak
   W.logs   name -> [max (-1: no limit), weak, ent: sequence of entries, cur: current context]
   W.alive  the described objects which are still referenced by the user;  W.next  identity of the next entry
   An entry is [id, node, kids: sequence of [id, node, items: sequence of <<attribute, info>>]].
   The current context is <<"none">>, <<"collector", id>> or <<"class", id of the entry, id of the kid>>: it may be
   an entry which does not belong to the log any more (additions are then accepted, but not visible).          *)
EXTENDS FPText

EmptyMap == [x \in {} |-> 0]
PutMap(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
LogInit == [logs |-> EmptyMap, alive |-> {}, kept |-> {}, next |-> 1]

NewLog(max, weak) == [max |-> max, weak |-> weak, ent |-> <<>>, cur |-> <<"none">>]

(* The last n elements *)
LastN(s, n) == IF n < 0 \/ Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

OnEntry(ent, id, F(_)) == [i \in 1..Len(ent) |-> IF ent[i].id = id THEN F(ent[i]) ELSE ent[i]]

LogOk(l) == [ok |-> TRUE, l |-> l]
LogBad(l) == [ok |-> FALSE, l |-> l]
LogAdd(l, e, id) ==
  CASE e.what = "collector" ->
         LogOk([l EXCEPT !.ent = LastN(Append(@, [id |-> id, node |-> e.node, kids |-> <<>>]), l.max), !.cur = <<"collector", id>>])
    [] e.what = "candidate" ->
         IF l.cur[1] = "none" THEN LogBad(l)
         ELSE LET c == l.cur[2]
                  add(x) == [x EXCEPT !.kids = Append(@, [id |-> id, node |-> e.node, items |-> <<>>])]
              IN LogOk([l EXCEPT !.ent = OnEntry(@, c, add), !.cur = <<"class", c, id>>])
    [] e.what = "attribute" ->
         IF l.cur[1] # "class" THEN LogBad(l)
         ELSE LET add(x) == [x EXCEPT !.kids = [k \in 1..Len(x.kids) |->
                                IF x.kids[k].id = l.cur[3] THEN [x.kids[k] EXCEPT !.items = Append(@, <<e.name, e.info>>)]
                                ELSE x.kids[k]]]
              IN LogOk([l EXCEPT !.ent = OnEntry(@, l.cur[2], add)])
    [] OTHER -> LogBad(l)

(* Views *)
RECURSIVE SortIns(_, _)
SortIns(s, x) == IF s = <<>> THEN <<x>>
                 ELSE IF StrLess(x.node, s[1].node) THEN <<x>> \o s ELSE <<s[1]>> \o SortIns(Tail(s), x)
RECURSIVE SortKids(_)
SortKids(s) == IF s = <<>> THEN <<>> ELSE SortIns(SortKids(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

LastOf(s, P(_)) == s[CHOOSE i \in 1..Len(s) : P(s[i]) /\ \A j \in (i + 1)..Len(s) : ~P(s[j])]
ClassDict(k) == [a \in {k.items[i][1] : i \in 1..Len(k.items)} |-> LastOf(k.items, LAMBDA x : x[1] = a)[2]]
EntryDict(x) == [c \in {x.kids[i].node : i \in 1..Len(x.kids)} |-> ClassDict(LastOf(x.kids, LAMBDA k : k.node = c))]
EntryKey(l, i, stamp) == l.ent[i].node \o (IF stamp THEN "" ELSE "_" \o PadLeft(IntStr(i), "0", 4))
DictView(l, stamp) == [i \in 1..Len(l.ent) |-> <<EntryKey(l, i, stamp), EntryDict(l.ent[i])>>]
XmlView(l) == [i \in 1..Len(l.ent) |->
                 <<l.ent[i].node, [k \in 1..Len(l.ent[i].kids) |->
                     LET s == SortKids(l.ent[i].kids)[k] IN <<s.node, s.items>>]>>]
(* an entry of a weak log does not keep alive what it describes *)
AliveOk(W, l, n, seen) == IF n \in W.alive \/ ~l.weak THEN seen ELSE (seen => n \in W.kept)
RECURSIVE XmlLast(_, _)
XmlLast(kids, i) == IF i > Len(kids) THEN <<>>
  ELSE [j \in 1..Len(kids[i].items) |->
          <<kids[i].node, kids[i].items[j][1], IF "why" \in DOMAIN kids[i].items[j][2] THEN kids[i].items[j][2].why ELSE "">>]
       \o XmlLast(kids, i + 1)
WhyNot(l, sel) ==
  LET d == EntryDict(l.ent[Len(l.ent)])
  IN [c \in {x \in DOMAIN d : Contains(Lower(x), Lower(sel)) /\ DOMAIN d[x] # {}} |-> d[c]]

SeqEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
MapEq(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : f[x] = g[x]
DictEq(f, g) == DOMAIN f = DOMAIN g /\ \A x \in DOMAIN f : DOMAIN f[x] = DOMAIN g[x] /\ \A a \in DOMAIN f[x] : MapEq(f[x][a], g[x][a])
ItemsEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ MapEq(a[i][2], b[i][2])
KidsEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ ItemsEq(a[i][2], b[i][2])

LYes(w) == [ok |-> TRUE, why |-> "", w |-> w]
LChk(c, why, w) == IF c THEN LYes(w) ELSE [ok |-> FALSE, why |-> why, w |-> w]

LogView(W, e) ==
  LET l == W.logs[e.log] r == e.res IN
  CASE e.m = "dict" ->
         LET v == DictView(l, e.stamp) IN
         LChk(/\ r.k = "dict" /\ Len(r.l) = Len(v)
              /\ \A i \in 1..Len(v) : r.l[i][1] = v[i][1] /\ DictEq(r.l[i][2], v[i][2]), "log-dict", W)
    [] e.m = "xml" ->
         LET v == XmlView(l) IN
         LChk(/\ r.k = "xml" /\ Len(r.l) = Len(v)
              /\ \A i \in 1..Len(v) : r.l[i][1] = v[i][1] /\ KidsEq(r.l[i][2], v[i][2]), "log-xml", W)
    [] e.m = "xmllast" ->     \* (there is no last entry in an empty log)
         LChk(r.k = "xmllast" /\ (l.ent # <<>> => SeqEq(r.l, XmlLast(SortKids(l.ent[Len(l.ent)].kids), 1))), "log-xml-last", W)
    [] e.m = "whynot" ->
         IF l.ent = <<>> THEN LChk(r.k = "none", "log-whynot", W)
         ELSE LChk(r.k = "why" /\ DictEq(r.d, WhyNot(l, e.sel)), "log-whynot", W)
    [] e.m = "last" ->
         IF l.ent = <<>> THEN LChk(r.k = "none", "log-last", W)
         ELSE LChk(r.k = "entry" /\ r.name = l.ent[Len(l.ent)].node /\ DictEq(r.d, EntryDict(l.ent[Len(l.ent)])), "log-last", W)
    [] e.m = "raw" ->
         LChk(r.k = "raw" /\ r.len = Len(l.ent) /\ SeqEq(r.l, [i \in 1..Len(l.ent) |-> l.ent[i].node]), "log-items", W)

(* One command: mk, add, current, clear, reduce, view, drop *)
LogStep(W, e) ==
  CASE e.op = "mk" -> LChk(e.res.k = "ok", "log-creation",
                           IF e.log \in DOMAIN W.logs THEN W ELSE [W EXCEPT !.logs = PutMap(@, e.log, NewLog(e.max, e.weak))])
    [] e.op = "add" ->
         LET a == LogAdd(W.logs[e.log], e, W.next)
             W1 == [W EXCEPT !.logs[e.log] = a.l, !.next = @ + 1, !.alive = IF "node" \in DOMAIN e THEN @ \cup {e.node} ELSE @,
                            !.kept = IF "node" \in DOMAIN e /\ ~W.logs[e.log].weak THEN @ \cup {e.node} ELSE @]
         IN IF a.ok THEN LChk(e.res.k = "ok", "log-add", W1)
            ELSE LChk(e.res.k = "exc" /\ e.res.x = "FootprintBadLogEntry", "log-add-refused", W1)
    [] e.op = "current" ->       \* the context is set to an entry (or to a class of it)
         LET l == W.logs[e.log] x == l.ent[e.i] IN
         LChk(e.res.k = "ok", "log-current",
              [W EXCEPT !.logs[e.log].cur = IF e.j = 0 THEN <<"collector", x.id>> ELSE <<"class", x.id, SortKids(x.kids)[e.j].id>>])
    [] e.op = "clear" -> LChk(e.res.k = "ok", "log-clear", [W EXCEPT !.logs[e.log].ent = <<>>, !.logs[e.log].cur = <<"none">>])
    [] e.op = "reduce" -> LChk(e.res.k = "ok", "log-reduce", [W EXCEPT !.logs[e.log].ent = LastN(@, 1)])
    [] e.op = "drop" -> LChk(e.res.k = "ok", "log-drop", [W EXCEPT !.alive = @ \ {e.node}])
    [] e.op = "view" -> LogView(W, e)

(* The content of all the logs is observed after each command *)
FullOk(W, l, x) == Len(x) = Len(l.ent) /\ \A i \in 1..Len(x) :
  LET kids == SortKids(l.ent[i].kids) y == x[i][3] IN
  /\ x[i][1] = l.ent[i].node /\ AliveOk(W, l, x[i][1], x[i][2]) /\ Len(y) = Len(kids)
  /\ \A k \in 1..Len(y) : y[k][1] = kids[k].node /\ AliveOk(W, l, y[k][1], y[k][2]) /\ ItemsEq(y[k][3], kids[k].items)
LogObs(W, obs) ==
  IF DOMAIN obs # DOMAIN W.logs THEN "log-names"
  ELSE IF \E n \in DOMAIN obs : obs[n].weak # W.logs[n].weak THEN "log-weak"
  ELSE IF \E n \in DOMAIN obs : W.logs[n].max >= 0 /\ Len(obs[n].ent) > W.logs[n].max THEN "log-bound"
  ELSE IF \E n \in DOMAIN obs : ~FullOk(W, W.logs[n], obs[n].ent) THEN "log-content"
  ELSE ""
=============================================================================
