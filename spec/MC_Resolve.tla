------------------------------ MODULE MC_Resolve ------------------------------
(* Model checking of the resolution of FPResolve, for every footprint of a few attributes whose raw values come from a
   palette with references of all sorts (to attributes, to extras which refer to attributes or to themselves, unknown...).

   The attributes are settled one at a time, in any order (as an implementation may do); the specification settles them by
   rounds; a third definition, by recursion along the references, is the meaning of C06 and C07.  They all agree.       *)
EXTENDS FPResolve
CONSTANTS Names, Raws, ExtZ, ExtY, Kinds
VARIABLES fp, g, ext, done, why, errs, left
vars == <<fp, g, ext, done, why, errs, left>>

E0 == [def |-> EmptyFn, ext |-> EmptyFn, extended |-> TRUE, fast |-> FALSE, fastkeys |-> {}, objs |-> EmptyFn, ocls |-> EmptyFn, mro |-> EmptyFn]
Attr(kind, opt) ==
  LET base == [default |-> None, optional |-> opt, access |-> "rxx", alias |-> {}, values |-> <<>>, outcast |-> <<>>, remap |-> <<>>]
  IN CASE kind = "str" -> base
       [] kind = "int" -> [f \in DOMAIN base \cup {"typ"} |-> IF f = "typ" THEN "int" ELSE base[f]]
       [] kind = "vals" -> [base EXCEPT !.values = <<SV("x"), SV("w")>>, !.remap = <<<<SV("7"), SV("x")>>>>]
       [] kind = "outc" -> [base EXCEPT !.outcast = <<SV("x")>>, !.remap = <<<<SV("7"), SV("w")>>, <<SV("w"), SV("7")>>>>]
       [] kind = "up" -> [f \in DOMAIN base \cup {"typ"} |-> IF f = "typ" THEN "Up" ELSE base[f]]
Raw(x) == IF x = "UNKNOWN" THEN Unknown ELSE SV(x)

Init == /\ fp \in {[attr |-> [k \in Names |-> Attr(t[k], k # "c")], only |-> <<>>, level |-> "DEFAULT", info |-> ""] : t \in [Names -> Kinds]}
        /\ g = EmptyFn /\ ext = EmptyFn /\ done = EmptyFn /\ why = EmptyFn /\ errs = {} /\ left = Names
Choose == /\ g = EmptyFn
          /\ g' \in {[k \in Names |-> Raw(t[k])] : t \in [Names -> Raws]}
          /\ ext' \in {[n \in {"z", "y"} |-> IF n = "z" THEN SV(z) ELSE SV(y)] : z \in ExtZ, y \in ExtY}
          /\ UNCHANGED <<fp, done, why, errs, left>>
X0 == [g |-> g, done |-> done, ext |-> ext, O |-> EmptyFn, attr |-> fp.attr, names |-> Join(SortedNames(Names), "+"), C |-> E0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
One == g # EmptyFn /\ \E k \in left :
  LET t == Try(k, X0)
      c == IF t[1] = "none" THEN [v |-> None, why |-> {Missing}, arg |-> NoArg] ELSE Checked(fp.attr[k], t[2], E0)
  IN /\ t[1] # "pend" /\ left' = left \ {k}
     /\ IF t[1] = "err" THEN errs' = errs \cup {t[2]} /\ UNCHANGED <<done, why>>
        ELSE done' = Put(done, k, c.v) /\ why' = Put(why, k, c.why) /\ UNCHANGED errs
     /\ UNCHANGED <<fp, g, ext>>
Next == Choose \/ One
Spec == Init /\ [][Next]_vars

Final == g # EmptyFn /\ ~\E k \in left : Try(k, X0)[1] # "pend"
R == Settle(Names, {}, EmptyFn, EmptyFn, [X0 EXCEPT !.done = EmptyFn])
(* whatever the order, the same values, reasons and errors *)
Confluent == Final => /\ done = R.done /\ why = R.why
                      /\ errs \cup (IF left # {} THEN {"FootprintMaxIter"} ELSE {}) = R.errs

(* by recursion along the references: <<"ok", v>>, <<"none", "">>, <<"err", exceptions>> *)
Cyclic == <<"err", {"FootprintMaxIter"}>>
RECURSIVE DVal(_, _), DExp(_, _, _)
DVal(k, stk) ==
  IF k \in stk THEN Cyclic
  ELSE LET s == IF IsStr(g[k]) /\ Kind(g[k]) # "u" THEN DExp(Text(g[k]), stk \cup {k}, {}) ELSE <<"ok", g[k]>>
           u == IF s[1] = "ok" /\ Kind(g[k]) # "u" THEN <<"ok", SV(s[2])>> ELSE s
           w == IF u[1] = "ok" /\ Kind(u[2]) = "s" /\ Text(u[2]) = "__unknown__"
                THEN (IF fp.attr[k].optional THEN <<"ok", Unknown>> ELSE <<"none", "">>) ELSE u
       IN IF w[1] = "err" THEN w ELSE IF w[1] = "none" THEN <<"ok", None>> ELSE <<"ok", Checked(fp.attr[k], w[2], E0).v>>
DExp(s, stk, es) ==
  LET m == FindRef(s, 1) IN
  IF m.st = 0 THEN <<"ok", s>>
  ELSE LET v == IF m.name \in Names THEN DVal(m.name, stk)
                ELSE IF m.name \in DOMAIN ext THEN (IF m.name \in es THEN Cyclic ELSE <<"ok", ext[m.name]>>)
                ELSE IF m.dflt # "" THEN <<"ok", SV(m.dflt)>> ELSE <<"err", {"FootprintUnreachableAttr"}>>
           w == IF v[1] # "ok" THEN v ELSE Follow(v[2], SubNames(m.sub), EmptyFn, "")
           x == IF w[1] # "ok" THEN w ELSE IF m.fmt = "" \/ Kind(w[2]) = "n" THEN <<"ok", Str(w[2])>> ELSE FormatField(w[2], m.fmt)
           y == IF x[1] # "ok" THEN x ELSE DExp(x[2], stk, es \cup {m.name})
           z == DExp(Drop(s, m.end), stk, es)
       IN IF y[1] = "none" \/ (y[1] = "err" /\ z[1] # "err") THEN y
          ELSE IF y[1] = "err" THEN <<"err", y[2]>>
          ELSE IF z[1] # "ok" THEN z
          ELSE <<"ok", SubSeq(s, 1, m.st - 1) \o y[2] \o z[2]>>
D == [k \in Names |-> DVal(k, {})]
Meaning == Final =>
  /\ \A k \in Names : (k \in DOMAIN done) = (D[k][1] = "ok")
  /\ \A k \in DOMAIN done : D[k][1] = "ok" => Same(done[k], D[k][2])
  /\ (errs = {} /\ left = {}) = (\A k \in Names : D[k][1] = "ok")
  /\ left = Names => \A k \in Names : D[k] = Cyclic
(* every resolved footprint is valid *)
Res == ResolveGuess(fp, g, ext, E0)
Valid == Final /\ Res.errs = {} /\ ~Res.bad =>
  \A k \in Names : LET v == Res.at[k] d == fp.attr[k] IN
    \/ Kind(v) = "u" /\ d.optional
    \/ /\ IsInst(v, Typ(d), E0) /\ ~IsNoneText(v)
       /\ d.values # <<>> => InVals(v, d.values)
       /\ d.outcast # <<>> => ~InVals(v, d.outcast)
(* a rejected attribute has a reason, and only one; a valid one has none *)
Explained == Final /\ Res.errs = {} => \A k \in Names :
  IF Kind(Res.at[k]) = "n" THEN Cardinality(Res.why[k] \cup (IF k \in Res.must THEN {Missing} ELSE {})) = 1 ELSE Res.why[k] = {}
=============================================================================
