------------------------------- MODULE FPDef -------------------------------
(* Footprint definitions: raw definitions, merge, normal form, classes.

   A raw definition is a record with some of the fields
     attr (name -> raw attribute), only (<<<<key, alternatives>>...>>), level (name of a priority level), info.
   A raw attribute is a record with some of the fields
     typ, args (<<<<name, value>>..>>), default, optional, access, alias (sequence), values, outcast (sequences),
     remap (pairs), auto ("first": the first of the values replaces the others), isclass,
   info, vis, z (documentation: text, visibility, order).               *)
EXTENDS FPResolve

RECURSIVE PairMerge(_, _)
PairMerge(a, b) ==
  IF b = <<>> THEN a
  ELSE LET i == {j \in 1..Len(a) : a[j][1] = b[1][1]} IN
       PairMerge(IF i = {} THEN Append(a, b[1]) ELSE [a EXCEPT ![CHOOSE j \in i : TRUE] = b[1]], Tail(b))

(* the same for mappings whose keys are values: equal keys are the same key *)
RECURSIVE PairMergeV(_, _)
PairMergeV(a, b) ==
  IF b = <<>> THEN a
  ELSE LET i == {j \in 1..Len(a) : PyEq(a[j][1], b[1][1])} IN
       PairMergeV(IF i = {} THEN Append(a, b[1]) ELSE [a EXCEPT ![CHOOSE j \in i : TRUE] = <<@[1], b[1][2]>>], Tail(b))

MergeAttr(a, b) ==
  [f \in DOMAIN a \cup DOMAIN b |->
     IF f \notin DOMAIN b THEN a[f]
     ELSE IF f \notin DOMAIN a THEN b[f]
     ELSE IF f = "remap" THEN PairMergeV(a[f], b[f])
     ELSE IF f = "args" THEN PairMerge(a[f], b[f])
     ELSE IF f = "default" /\ Kind(b[f]) = "d" /\ Kind(a[f]) \in DictKinds THEN <<Kind(a[f]), PairMergeV(Pay(a[f]), Pay(b[f]))>>
     ELSE b[f]]
MergeAttrs(a, b) ==
  [k \in DOMAIN a \cup DOMAIN b |->
     IF k \notin DOMAIN b THEN a[k] ELSE IF k \notin DOMAIN a THEN b[k] ELSE MergeAttr(a[k], b[k])]
MergeRaw(a, b) ==
  [attr |-> IF "attr" \in DOMAIN b THEN MergeAttrs(a.attr, b.attr) ELSE a.attr,
   only |-> IF "only" \in DOMAIN b THEN PairMerge(a.only, b.only) ELSE a.only,
   level |-> IF "level" \in DOMAIN b THEN b.level ELSE a.level,
   info |-> IF "info" \in DOMAIN b THEN b.info ELSE a.info]
EmptyRaw == [attr |-> EmptyFn, only |-> <<>>, level |-> "DEFAULT", info |-> "Not documented"]
RECURSIVE MergeAll(_, _)
MergeAll(acc, parts) == IF parts = <<>> THEN acc ELSE MergeAll(MergeRaw(acc, parts[1]), Tail(parts))

(* footprint objects without attribute and restriction are ignored *)
Relevant(parts) == SelectSeq(parts, LAMBDA p : p.raw \/ DOMAIN p.def.attr # {} \/ p.def.only # <<>>)
Defs(parts) == [i \in 1..Len(Relevant(parts)) |-> Relevant(parts)[i].def]

Fld(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
AsSeq(x) == x
AliasSet(r) == LET a == Fld(r, "alias", <<>>) IN {a[i] : i \in DOMAIN a}

RECURSIVE ConvAll(_, _, _, _)
(* the declared values, converted to the declared type; <<"bad">> when this is not possible *)
ConvAll(vals, r, C, acc) ==
  IF vals = <<>> THEN Ok(Dedup(acc, <<>>))
  ELSE LET T == Typ(r)
           c == IF IsInst(vals[1], T, C) THEN Ok(vals[1]) ELSE Conv(T, Args(r), vals[1])
       IN IF c[1] = "ok" THEN ConvAll(Tail(vals), r, C, Append(acc, c[2])) ELSE Bad

AutoRemap(r) ==
  LET vals == Fld(r, "values", <<>>) rem == Fld(r, "remap", <<>>) IN
  IF "auto" \in DOMAIN r /\ r.auto = "first" /\ Len(vals) > 0
  THEN PairMergeV(rem, [i \in 1..(Len(vals) - 1) |-> <<vals[i + 1], vals[1]>>])
  ELSE rem

Clamp(z) == IF z > 100 THEN 100 ELSE IF z < -100 THEN -100 ELSE z
NormAttr(r, C) ==
  LET vs == ConvAll(Fld(r, "values", <<>>), r, C, <<>>)
      os == ConvAll(Fld(r, "outcast", <<>>), r, C, <<>>)
      base == [default |-> Fld(r, "default", None), optional |-> Fld(r, "optional", FALSE),
               access |-> Fld(r, "access", "rxx"), alias |-> AliasSet(r),
               values |-> vs[2], outcast |-> os[2], remap |-> AutoRemap(r),
               vis |-> Fld(r, "vis", "DEFAULT"), z |-> Clamp(Fld(r, "z", 0))]
      more == DOMAIN r \cap {"typ", "args", "isclass", "info"}
      hashable(l) == \A i \in 1..Len(l) : PyHashable(l[i])     \* declared values are gathered in sets
  IN [ok |-> vs[1] = "ok" /\ os[1] = "ok" /\ hashable(vs[2]) /\ hashable(os[2]),
      d |-> [f \in DOMAIN base \cup more |-> IF f \in more THEN r[f] ELSE base[f]]]

(* Footprint(part, part, ...): [ok, fp] *)
MakeFootprint(parts, C) ==
  LET m == MergeAll(EmptyRaw, Defs(parts))
      n == [k \in DOMAIN m.attr |-> NormAttr(m.attr[k], C)]
  IN [ok |-> \A k \in DOMAIN n : n[k].ok, fp |-> [m EXCEPT !.attr = [k \in DOMAIN n |-> n[k].d]]]

(* a normal footprint used as a part of another one: the aliases are a sequence again *)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
AsPart(fp) == [raw |-> FALSE,
               def |-> [fp EXCEPT !.attr = [k \in DOMAIN fp.attr |-> [fp.attr[k] EXCEPT !.alias = SetSeq(fp.attr[k].alias)]]]]
RawPart(r) == [raw |-> TRUE, def |-> r]

Mandatory(fp) == {k \in DOMAIN fp.attr : ~fp.attr[k].optional}
AllKeys(fp) == DOMAIN fp.attr \cup UNION {fp.attr[k].alias : k \in DOMAIN fp.attr}
TagClean(t) == RStripC(Lower(t), "s")

(* ------------------------------------------------------------------ *)
(* Python method resolution order (C3)                                  *)
RECURSIVE C3Merge(_)
C3Merge(seqs) ==
  LET ne == SelectSeq(seqs, LAMBDA s : s # <<>>) IN
  IF ne = <<>> THEN <<>>
  ELSE LET good == {i \in 1..Len(ne) : \A j \in 1..Len(ne) : \A p \in 2..Len(ne[j]) : ne[j][p] # ne[i][1]}
           i == CHOOSE i \in good : \A j \in good : i <= j
           h == ne[i][1]
       IN <<h>> \o C3Merge([j \in 1..Len(ne) |-> IF ne[j][1] = h THEN Tail(ne[j]) ELSE ne[j]])
=============================================================================
