----------------------------- MODULE FPPriority -----------------------------
(* Sets of priority levels.  A state is [lv: sequence of level names, fz: name -> frozen sequence].
   Every operation gives [p (new state), r (result)]; a result is <<"ok", x>> or <<"exc", set of exceptions>>,
   and a failing operation leaves the state unchanged.                                                   *)
EXTENDS FPText

PInit(levels) == [lv |-> levels, fz |-> [x \in {"default"} |-> levels]]

Pos(lv, t) == CHOOSE i \in 1..Len(lv) : lv[i] = t
InLv(lv, t) == \E i \in 1..Len(lv) : lv[i] = t
Without(lv, t) == SelectSeq(lv, LAMBDA x : x # t)
InsertAt(lv, i, t) == SubSeq(lv, 1, i - 1) \o <<t>> \o SubSeq(lv, i, Len(lv))

POk(p, x) == [p |-> p, r |-> <<"ok", x>>]
PExc(p, e) == [p |-> p, r |-> <<"exc", e>>]
PLv(p, lv) == [p EXCEPT !.lv = lv]

RECURSIVE ExtendLv(_, _)
ExtendLv(lv, ts) == IF ts = <<>> THEN lv ELSE ExtendLv(Append(Without(lv, Upper(ts[1])), Upper(ts[1])), Tail(ts))

CanInsert(lv, t, ref) == InLv(lv, Upper(ref)) /\ Upper(ref) # Upper(t)
InsertRel(lv, t, ref, shift) ==
  LET l == Without(lv, Upper(t)) IN InsertAt(l, Pos(l, Upper(ref)) + shift, Upper(t))

RECURSIVE InsertMany(_, _, _, _)
InsertMany(lv, ts, ref, shift) ==
  IF ts = <<>> THEN lv ELSE InsertMany(InsertRel(lv, ts[1], ref, shift), Tail(ts), ref, shift)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

Rerank(lv, t, upd) ==
  LET u == Upper(t)
      l == Without(lv, u)
      i0 == Pos(lv, u) + upd
      i == IF i0 < 1 THEN 1 ELSE IF i0 > Len(lv) THEN Len(lv) ELSE i0
  IN InsertAt(l, i, u)

(* Operations are records [m: name, a: arguments] *)
POp(p, op) ==
  LET m == op.m
      a == op.a
      lv == p.lv
      known(t) == InLv(lv, Upper(t))
  IN
  CASE m = "extend" -> POk(PLv(p, ExtendLv(lv, a)), "")
    [] m = "insert" -> POk(PLv(p, ExtendLv(lv, <<a[1]>>)), Upper(a[1]))
    [] m \in {"insert_after", "addafter"} ->
         IF CanInsert(lv, a[1], a[2]) THEN POk(PLv(p, InsertRel(lv, a[1], a[2], 1)), Upper(a[1])) ELSE PExc(p, {"ValueError"})
    [] m \in {"insert_before", "addbefore"} ->
         IF CanInsert(lv, a[1], a[2]) THEN POk(PLv(p, InsertRel(lv, a[1], a[2], 0)), Upper(a[1])) ELSE PExc(p, {"ValueError"})
    [] m = "set_before" ->
         IF \A i \in 2..Len(a) : CanInsert(lv, a[i], a[1])
         THEN POk(PLv(p, InsertMany(lv, Tail(a), a[1], 0)), "") ELSE PExc(p, {"ValueError"})
    [] m = "set_after" ->
         IF \A i \in 2..Len(a) : CanInsert(lv, a[i], a[1])
         THEN POk(PLv(p, InsertMany(lv, Rev(Tail(a)), a[1], 1)), "") ELSE PExc(p, {"ValueError"})
    [] m \in {"remove", "delete"} ->
         IF known(a[1]) THEN POk(PLv(p, Without(lv, Upper(a[1]))), "") ELSE PExc(p, {"ValueError"})
    [] m = "rerank" -> IF known(a[1]) THEN POk(PLv(p, Rerank(lv, a[1], a[2])), Upper(a[1])) ELSE PExc(p, {"ValueError"})
    [] m = "up" -> IF known(a[1]) THEN POk(PLv(p, Rerank(lv, a[1], 1)), Upper(a[1])) ELSE PExc(p, {"ValueError"})
    [] m = "down" -> IF known(a[1]) THEN POk(PLv(p, Rerank(lv, a[1], 0 - 1)), Upper(a[1])) ELSE PExc(p, {"ValueError"})
    [] m = "top" -> IF known(a[1]) THEN POk(PLv(p, Append(Without(lv, Upper(a[1])), Upper(a[1]))), Upper(a[1])) ELSE PExc(p, {"ValueError"})
    [] m = "bottom" -> IF known(a[1]) THEN POk(PLv(p, <<Upper(a[1])>> \o Without(lv, Upper(a[1]))), Upper(a[1])) ELSE PExc(p, {"ValueError"})
    [] m = "freeze" -> IF Lower(a[1]) = "default" THEN PExc(p, {"ValueError"})
                       ELSE POk([p EXCEPT !.fz = [x \in DOMAIN p.fz \cup {Lower(a[1])} |-> IF x = Lower(a[1]) THEN lv ELSE p.fz[x]]], "")
    [] m = "restore" -> IF Lower(a[1]) \in DOMAIN p.fz THEN POk(PLv(p, p.fz[Lower(a[1])]), "") ELSE PExc(p, {"KeyError", "ValueError"})
    [] m = "reset" -> POk(PLv(p, p.fz["default"]), "")
    [] m = "freezed" -> POk(p, DOMAIN p.fz)
    [] m = "level" -> POk(p, IF known(a[1]) THEN Upper(a[1]) ELSE "-")
    [] m = "contains" -> POk(p, known(a[1]))
    [] m = "levelbyindex" -> POk(p, IF a[1] < 0 \/ a[1] >= Len(lv) THEN "-" ELSE lv[a[1] + 1])
    [] m = "levelindex" -> IF known(a[1]) THEN POk(p, Pos(lv, Upper(a[1])) - 1) ELSE PExc(p, {"ValueError"})
    [] m = "nextlevel" -> IF ~known(a[1]) THEN PExc(p, {"ValueError"})
                          ELSE POk(p, IF Pos(lv, Upper(a[1])) = Len(lv) THEN "-" ELSE lv[Pos(lv, Upper(a[1])) + 1])
    [] m = "prevlevel" -> IF ~known(a[1]) THEN PExc(p, {"ValueError"})
                          ELSE POk(p, IF Pos(lv, Upper(a[1])) = 1 THEN "-" ELSE lv[Pos(lv, Upper(a[1])) - 1])
    [] m = "cmp" ->   \* comparisons of two known levels: <, <=, =, >=, >, #
         IF known(a[1]) /\ known(a[2])
         THEN LET i == Pos(lv, Upper(a[1])) j == Pos(lv, Upper(a[2])) IN
              POk(p, <<i < j, i <= j, i = j, i >= j, i > j, i # j>>)
         ELSE PExc(p, {"ValueError"})
    [] m = "eqname" ->   \* comparison of a level with a name
         IF ~known(a[1]) THEN PExc(p, {"ValueError"}) ELSE POk(p, known(a[2]) /\ Upper(a[1]) = Upper(a[2]))
    [] m = "copy" -> POk(p, lv)
=============================================================================
