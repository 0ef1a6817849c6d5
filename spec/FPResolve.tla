----------------------------- MODULE FPResolve -----------------------------
(* Resolution of a description by the footprint of a class.

   A footprint is a record [attr: name -> attribute definition, only: <<<<key, alternatives>>, ...>>, level, info].
   An attribute definition is a function on
     {"default", "optional", "access", "alias", "values", "outcast", "remap"} plus possibly {"typ", "args", "isclass"}.

   A description is a sequence of <<name, value>> pairs.

   The environment E of a resolution:
     def      session defaults (lower case name -> value)
     ext      session extras (name -> value)
     extended are the defaults also used as extras ?
     objs     object -> [cls, at: attribute -> value]
     ocls, mro  classes of the objects, ancestors of the classes
     fast, fastkeys  is the resolution cut short at the first invalid attribute (among fastkeys) ?
                                      *)
EXTENDS FPVal, FPRegexp

Typ(d) == IF "typ" \in DOMAIN d THEN d.typ ELSE "str"
Args(d) == IF "args" \in DOMAIN d THEN d.args ELSE <<>>
IsClassAttr(d) == "isclass" \in DOMAIN d /\ d.isclass

Override(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Fill(f, g, excl) == [x \in DOMAIN f \cup (DOMAIN g \ excl) |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]

(* A mapping from pairs (the last one wins) *)
PairsFn(ps) == [n \in {ps[i][1] : i \in 1..Len(ps)} |->
                  ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = n /\ \A j \in (i + 1)..Len(ps) : ps[j][1] # n][2]]

(* ------------------------------------------------------------------ *)
(* References in strings                                                *)

NoRef == [st |-> 0, end |-> 0, name |-> "", sub |-> "", dflt |-> "", fmt |-> ""]
TryRef(s, j) ==
  LET ne == SpanEnd(s, j + 1, WordSet)
      at(p) == IF p <= Len(s) THEN Chr(s, p) ELSE ""
      ce == SpanEnd(s, ne, {":"})
      se == SpanEnd(s, ce, WordSet \cup {":"})
      hassub == at(ne) = ":" /\ se > ce
      p2 == IF hassub THEN se ELSE ne
      de == SpanEnd(s, p2 + 1, WordSet)
      hasdflt == at(p2) = "#" /\ de > p2 + 1
      p3 == IF hasdflt THEN de ELSE p2
      fe == SpanNot(s, p3 + 1, "]")
      hasfmt == at(p3) = "%" /\ fe > p3 + 1
      p4 == IF hasfmt THEN fe ELSE p3
  IN IF ne = j + 1 \/ at(p4) # "]" THEN NoRef
     ELSE [st |-> j, end |-> p4, name |-> SubSeq(s, j + 1, ne - 1),
           sub |-> IF hassub THEN SubSeq(s, ce, se - 1) ELSE "",
           dflt |-> IF hasdflt THEN SubSeq(s, p2 + 1, de - 1) ELSE "",
           fmt |-> IF hasfmt THEN SubSeq(s, p3 + 1, fe - 1) ELSE ""]

RECURSIVE FindRef(_, _)
FindRef(s, i) ==
  LET j == SpanNot(s, i, "[") IN
  IF j > Len(s) THEN NoRef
  ELSE LET r == TryRef(s, j) IN IF r.st > 0 THEN r ELSE FindRef(s, j + 1)
HasRef(v) == IsStr(v) /\ FindRef(Text(v), 1).st > 0

SubNames(x) == SelectSeq(SplitOn(x, ":"), LAMBDA y : y # "")

RECURSIVE Follow(_, _, _, _)
Follow(v, path, O, names) ==
  IF path = <<>> THEN Okf(v)
  ELSE LET r == SubAttr(v, path[1], O, names) IN IF r[1] = "ok" THEN Follow(r[2], Tail(path), O, names) ELSE r

RECURSIVE PopTo(_, _)
PopTo(st, tail) == IF st # <<>> /\ tail < st[Len(st)][2] THEN PopTo(SubSeq(st, 1, Len(st) - 1), tail) ELSE st

(* The complete substitution of the string s, value of the attribute X.k.
   X: [k, g (raw values of all the attributes), done (final values so far), ext, O, names]
   Result: <<"ok", string>>, <<"pend">> (refers to an unsettled attribute), <<"none">> (no value), <<"err", exception>> *)
Pend == <<"pend", "">>
RECURSIVE Exp(_, _, _)
Exp(s, stack, X) ==
  LET m == FindRef(s, 1) IN
  IF m.st = 0 THEN Okf(s)
  ELSE
    LET sq == SubSeq(s, m.st, m.end)
        tail == Len(s) - m.end
        st1 == PopTo(stack, tail)
        st2 == Append(st1, <<sq, tail>>)
        put(x) == Exp(SubSeq(s, 1, m.st - 1) \o x \o Drop(s, m.end), st2, X)
        use(v, inext) ==
          LET f == Follow(v, SubNames(m.sub), X.O, X.names) IN
          IF f[1] = "none" THEN None1
          ELSE IF f[1] = "err" THEN (IF inext THEN Pend ELSE f)
          ELSE LET t == IF m.fmt = "" \/ Kind(f[2]) = "n" THEN Okf(Str(f[2])) ELSE FormatField(f[2], m.fmt) IN
               IF t[1] = "ok" THEN put(t[2]) ELSE t
    IN IF \E i \in 1..Len(st1) : st1[i][1] = sq THEN Err("FootprintMaxIter")
       ELSE IF m.name \in DOMAIN X.g THEN
              (IF m.name = X.k \/ m.name \notin DOMAIN X.done THEN Pend ELSE use(X.done[m.name], FALSE))
       ELSE IF m.name \in DOMAIN X.ext THEN use(X.ext[m.name], TRUE)
       ELSE IF m.dflt # "" THEN put(m.dflt)
       ELSE Err("FootprintUnreachableAttr")

(* an attribute which only refers to an unspecified one is itself unspecified *)
Settled(k, v, X) == IF IsStr(v) /\ Text(v) = "__unknown__" THEN (IF X.attr[k].optional THEN Okf(Unknown) ELSE None1) ELSE Okf(v)
Try(k, X0) ==
  LET X == [k |-> k, g |-> X0.g, done |-> X0.done, ext |-> X0.ext, O |-> X0.O, names |-> X0.names]
      v == X.g[k] IN
  IF ~HasRef(v) THEN Settled(k, v, X0)
  ELSE LET r == Exp(Text(v), <<>>, X) IN IF r[1] = "ok" THEN Settled(k, SV(r[2]), X0) ELSE r

(* ------------------------------------------------------------------ *)
(* Remapping, conversion, restriction                                   *)

RECURSIVE RemapR(_, _, _)
RemapR(v, rem, seen) ==
  IF ~PyHashable(v) \/ InVals(v, seen) \/ ~\E i \in 1..Len(rem) : PyEq(rem[i][1], v) THEN v
  ELSE RemapR(rem[CHOOSE i \in 1..Len(rem) : PyEq(rem[i][1], v)][2], rem, Append(seen, v))
Remap(v, rem) == RemapR(v, rem, <<>>)

Missing == "Missing value"
Invalid == "Invalid value"
Outside == "Not in values"
Outcast == "Outcast value"
Reclass == "Could not reclass"
Subclass == "Not a subclass"

(* what is told along with the reason: nothing; the type and the value which was refused; the value *)
NoArg == [k |-> "none", t |-> "", v |-> None]
Checked(d, v, C) ==
  LET v1 == Remap(v, d.remap) IN
  IF Kind(v1) = "u" THEN [v |-> v1, why |-> {}, arg |-> NoArg]
  ELSE
    LET r == IF IsClassAttr(d) THEN (IF IsSubclass(v1, Typ(d), C) THEN Ok(v1) ELSE <<"bad", Subclass>>)
             ELSE IF IsInst(v1, Typ(d), C) THEN Ok(v1)
             ELSE LET c == Conv(Typ(d), Args(d), v1) IN IF c[1] = "ok" THEN c ELSE <<"bad", Reclass>>
        v2 == IF r[1] = "ok" THEN r[2] ELSE None
        why2 == IF r[1] = "ok" THEN {} ELSE {r[2]}
        out == why2 = {} /\ d.values # <<>> /\ ~InVals(v2, d.values)
        v3 == IF out THEN None ELSE v2
        why3 == IF out THEN why2 \cup {Outside} ELSE why2
        exc == why3 = {} /\ d.outcast # <<>> /\ InVals(v3, d.outcast)
    IN [v |-> IF exc THEN None ELSE v3, why |-> IF exc THEN why3 \cup {Outcast} ELSE why3,
        arg |-> IF why2 # {} THEN [k |-> IF why2 = {Subclass} THEN "type" ELSE "conv", t |-> Typ(d), v |-> v1]
                ELSE IF out \/ exc THEN [k |-> "val", t |-> "", v |-> v2] ELSE NoArg]

(* Rounds: every attribute whose references are settled gets its final value *)
RECURSIVE Settle(_, _, _, _, _)
Settle(pending, errs, why, arg, X) ==
  LET t == TLCEval([k \in pending |-> Try(k, X)])
      ready == {k \in pending : t[k][1] \in {"ok", "none"}}
      errk == {k \in pending : t[k][1] = "err"}
      nerrs == errs \cup {t[k][2] : k \in errk}
  IN IF ready = {} THEN [done |-> X.done, errs |-> IF pending \ errk = {} THEN nerrs ELSE nerrs \cup {"FootprintMaxIter"},
                         why |-> why, arg |-> arg, pend |-> pending]
     ELSE LET c == TLCEval([k \in ready |-> IF t[k][1] = "none" THEN [v |-> None, why |-> {Missing}, arg |-> NoArg]
                                    ELSE Checked(X.attr[k], t[k][2], X.C)])
              ndone == TLCEval([k \in DOMAIN X.done \cup ready |-> IF k \in ready THEN c[k].v ELSE X.done[k]])
              nwhy == TLCEval([k \in DOMAIN X.done \cup ready |-> IF k \in ready THEN c[k].why ELSE why[k]])
              narg == TLCEval([k \in DOMAIN X.done \cup ready |-> IF k \in ready THEN c[k].arg ELSE arg[k]])
          IN Settle(pending \ (ready \cup errk), nerrs, nwhy, narg, [X EXCEPT !.done = ndone])

(* ------------------------------------------------------------------ *)
(* First guess                                                          *)

Choices(k, d, D, E) ==
  LET given(n) == n \in DOMAIN D /\ ~(d.optional /\ Kind(D[n]) = "n")
      al == {a \in d.alias : given(a)}
  IN IF given(k) THEN {<<D[k], TRUE>>}
     ELSE IF al # {} THEN {<<D[a], TRUE>> : a \in al}
     ELSE IF Lower(k) \in DOMAIN E.def THEN {<<E.def[Lower(k)], TRUE>>}
     ELSE IF ~d.optional THEN {<<None, FALSE>>}
     ELSE IF Kind(d.default) = "n" THEN {<<Unknown, FALSE>>}
     ELSE IF Kind(d.default) = "V" THEN {<<Pay(d.default), FALSE>>}
     ELSE {<<d.default, FALSE>>}

RECURSIVE Product(_, _)
Product(ch, names) ==
  IF names = {} THEN {EmptyFn}
  ELSE LET k == CHOOSE k \in names : TRUE
           rest == Product(ch, names \ {k})
       IN UNION {{PutFn(f, k, c) : f \in rest} : c \in ch[k]}

ReadV(v) == IF Kind(v) = "u" THEN None ELSE v
RECURSIVE ObjExtras(_, _, _, _)
ObjExtras(desc, i, acc, E) ==
  IF i > Len(desc) THEN acc
  ELSE ObjExtras(desc, i + 1,
                 IF Kind(desc[i][2]) = "o" /\ Pay(desc[i][2]) \in DOMAIN E.objs
                 THEN LET at == E.objs[Pay(desc[i][2])].at IN Override(acc, [n \in DOMAIN at |-> ReadV(at[n])])
                 ELSE acc, E)
Extras(desc, names, E) ==
  LET e1 == ObjExtras(desc, 1, E.ext, E)
      e2 == Fill(e1, PairsFn(desc), names)
  IN IF E.extended THEN Fill(e2, E.def, names) ELSE e2

RECURSIVE SortedNames(_)
SortedNames(S) == IF S = {} THEN <<>>
                  ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ StrLess(x, y) IN <<m>> \o SortedNames(S \ {m})

IsNoneText(v) == IsStr(v) /\ Text(v) = "None"

(* One resolution, from given raw values.
   Result: [at (final values), bad (are there attributes without valid value ?), why: attribute -> reasons, errs] *)
ResolveGuess(fp, g, ext, E) ==
  LET names == DOMAIN fp.attr
      miss == {k \in names : Kind(g[k]) = "n"}
      nonetext == {k \in names : IsNoneText(g[k])}
  IN IF miss # {} THEN
       [at |-> g, bad |-> TRUE, errs |-> {}, must |-> miss, arg |-> [k \in names |-> NoArg],
        why |-> [k \in names |-> IF k \in miss THEN {Missing} ELSE IF k \in nonetext THEN {Invalid} ELSE {}]]
     ELSE
       LET X == [g |-> g, done |-> EmptyFn, ext |-> ext, O |-> E.objs, attr |-> fp.attr,
                 names |-> Join(SortedNames(names), "+"), C |-> E]
           r == Settle(names, {}, EmptyFn, EmptyFn, X)
           final(k) == IF k \in DOMAIN r.done THEN (IF IsNoneText(r.done[k]) THEN None ELSE r.done[k]) ELSE g[k]
           short == E.fast \/ names \cap E.fastkeys # {}
           why(k) == (IF k \in DOMAIN r.done THEN
                        (IF IsNoneText(r.done[k]) /\ r.why[k] = {} THEN {Invalid} ELSE r.why[k]) ELSE {})
                     \cup (IF k \in nonetext /\ short THEN {Invalid} ELSE {})
           at == TLCEval([k \in names |-> final(k)])
       IN [at |-> at, bad |-> \E k \in names : Kind(at[k]) = "n", errs |-> r.errs,
           must |-> {k \in names : ~short /\ r.errs = {} /\ Kind(at[k]) = "n" /\ why(k) \subseteq {Missing}},
           arg |-> [k \in names |-> IF k \in DOMAIN r.done THEN r.arg[k] ELSE NoArg],
           why |-> [k \in names |-> why(k)]]

(* ------------------------------------------------------------------ *)
(* Restrictions                                                         *)

OnlyNotFound == "No value found"
OnlyNoMatch == "Do not match"

OnlyAttr(key) == IF StartsWith(key, "after_") THEN Drop(key, 6)
                 ELSE IF StartsWith(key, "before_") THEN Drop(key, 7) ELSE key

AltHolds(key, alt, v) ==
  IF StartsWith(key, "after_") THEN (IF Orderable(v, alt) THEN Geq(v, alt) ELSE FALSE)
  ELSE IF StartsWith(key, "before_") THEN (IF Orderable(v, alt) THEN Less(v, alt) ELSE FALSE)
  ELSE IF Kind(alt) = "R" THEN IsStr(v) /\ RxMatch(Pay(alt), Text(v))
  ELSE PyEq(v, alt)
AltFails(key, alt, v) ==
  IF StartsWith(key, "after_") \/ StartsWith(key, "before_") THEN ~Orderable(v, alt)
  ELSE Kind(alt) = "R" /\ ~IsStr(v)

RECURSIVE CheckOnly(_, _, _, _)
(* <<"ok">>, <<"rej", attribute, reason, key, alternatives>> or <<"err", exception>> *)
CheckOnly(only, i, at, E) ==
  IF i > Len(only) THEN <<"ok", "", "", "", <<>>>>
  ELSE LET key == only[i][1]
           alts == only[i][2]
           a == OnlyAttr(key)
           v == IF a \in DOMAIN at THEN at[a] ELSE IF Lower(a) \in DOMAIN E.def THEN E.def[Lower(a)] ELSE None
       IN IF Kind(v) \in {"n", "u"} THEN <<"rej", a, OnlyNotFound, key, alts>>
          ELSE IF \E j \in 1..Len(alts) : AltHolds(key, alts[j], v) THEN CheckOnly(only, i + 1, at, E)
          ELSE IF \E j \in 1..Len(alts) : AltFails(key, alts[j], v) THEN <<"err", "TypeError", "", "", <<>>>>
          ELSE <<"rej", a, OnlyNoMatch, key, alts>>

(* ------------------------------------------------------------------ *)
(* The verdict of a class on a description.
     oks   the acceptable resolutions [at, inp]
     errs  the acceptable exceptions
     rej   may the class be rejected ?
     why   attribute -> reasons which may be reported;  must: attributes which have to be reported
     only  the restriction reasons which may be reported: <<attribute, reason>>
     args, onlyargs  what is told along with these reasons                              *)
Verdict(fp, desc, E, useonly) ==
  LET names == DOMAIN fp.attr
      D == PairsFn(desc)
      ch == TLCEval([k \in names |-> Choices(k, fp.attr[k], D, E)])
      gs == Product(ch, names)
      ext == TLCEval(Extras(desc, names, E))
      res(gc) == LET r == ResolveGuess(fp, TLCEval([k \in names |-> gc[k][1]]), ext, E)
                     o == IF useonly /\ r.errs = {} /\ ~r.bad THEN CheckOnly(fp.only, 1, r.at, E) ELSE <<"ok", "", "", "", <<>>>>
                 IN [r |-> r, o |-> o, inp |-> {k \in names : gc[k][2]}]
      rs == TLCEval({res(gc) : gc \in gs})
      whyof(k) == UNION {x.r.why[k] : x \in rs}
  IN [oks |-> IF (names = {} /\ useonly) THEN {} ELSE
              {[at |-> x.r.at, inp |-> x.inp] : x \in {y \in rs : y.r.errs = {} /\ ~y.r.bad /\ y.o[1] = "ok"}},
      errs |-> UNION {x.r.errs \cup (IF x.o[1] = "err" THEN {x.o[2]} ELSE {}) : x \in rs},
      rej |-> (names = {} /\ useonly) \/ \E x \in rs : x.r.bad \/ x.o[1] # "ok",
      why |-> [k \in names |-> whyof(k)],
      must |-> IF Cardinality(rs) = 1 THEN (CHOOSE x \in rs : TRUE).r.must ELSE {},
      args |-> UNION {UNION {{<<k, w, IF w \in {Missing, Invalid} THEN NoArg ELSE x.r.arg[k]>> : w \in x.r.why[k]} : k \in names} : x \in rs},
      only |-> {<<x.o[2], x.o[3]>> : x \in {y \in rs : y.o[1] = "rej"}},
      onlyargs |-> {<<x.o[2], x.o[3], x.o[4], x.o[5]>> : x \in {y \in rs : y.o[1] = "rej"}}]
=============================================================================
