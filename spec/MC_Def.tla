-------------------------------- MODULE MC_Def --------------------------------
(* Model checking of the merge of footprint definitions (FPDef): every triple of raw definitions of a universe.
   C09: key by key the most specific definition wins, what it does not define is inherited, mappings are merged, grouping does
   not matter; a footprint object given back as a definition is the same footprint.                                    *)
EXTENDS FPDef
CONSTANTS Wide
VARIABLES x, y, z
vars == <<x, y, z>>
E0 == [def |-> EmptyFn, ext |-> EmptyFn, extended |-> TRUE, fast |-> FALSE, fastkeys |-> {}, objs |-> EmptyFn, ocls |-> EmptyFn, mro |-> EmptyFn]
One(f, v) == [k \in {f} |-> v]
Fields == {One("optional", TRUE), One("default", SV("1")), One("typ", "int"), One("values", <<SV("1"), SV("2")>>), One("values", <<SV("2"), SV("zz")>>),
           One("remap", <<<<SV("a"), SV("1")>>>>), One("remap", <<<<SV("a"), SV("2")>>, <<SV("b"), SV("1")>>>>), One("alias", <<"al">>),
           One("default", <<"d", <<<<SV("k"), IV(1)>>>>>>), One("default", <<"d", <<<<SV("k"), IV(2)>>, <<SV("j"), IV(2)>>>>>>),
           One("access", "rwd"), One("args", <<<<"base", IV(16)>>>>), One("auto", "first"), EmptyFn}
Two == {Override(a, b) : a, b \in Fields}
Attrs == {One("p", a) : a \in Fields} \cup {[k \in {"p", "q"} |-> IF k = "p" THEN a ELSE One("optional", TRUE)] : a \in Fields} \cup {EmptyFn}
Raws == {One("attr", a) : a \in Attrs}
        \cup {[attr |-> One("p", One("optional", TRUE)), only |-> o, level |-> l] : o \in {<<>>, <<<<"p", <<SV("1")>>>>>>, <<<<"q", <<SV("2")>>>>, <<"p", <<SV("2")>>>>>>}, l \in {"TOOLBOX", "DEBUG"}}
        \cup {[info |-> "more", attr |-> EmptyFn]} \cup (IF Wide THEN {One("attr", One("p", a)) : a \in Two} ELSE {})
None0 == [none |-> TRUE]
Init == x \in Raws /\ y = None0 /\ z = None0
Next == y = None0 /\ y' \in Raws /\ z' \in Raws /\ x' = x
Spec == Init /\ [][Next]_vars

Whole(parts) == MergeAll(EmptyRaw, parts)
(* pairs as functions: the order of the keys does not matter *)
NormRaw(r) == [r EXCEPT !.attr = [k \in DOMAIN r.attr |-> [f \in DOMAIN r.attr[k] |->
                 IF f \in {"remap", "args"} THEN PairsFn(r.attr[k][f])
                 ELSE IF f = "default" /\ Kind(r.attr[k][f]) = "d" THEN PairsFn(Pay(r.attr[k][f])) ELSE r.attr[k][f]]],
                        !.only = PairsFn(r.only)]
M == Whole(<<x, y, z>>)
At(r) == IF "attr" \in DOMAIN r THEN r.attr ELSE EmptyFn
Has(r, k, f) == k \in DOMAIN At(r) /\ f \in DOMAIN At(r)[k]
Mapping(f, v) == f \in {"remap", "args"} \/ (f = "default" /\ Kind(v) = "d")
(* the last definition which gives the field *)
Last(k, f) == IF Has(z, k, f) THEN z ELSE IF Has(y, k, f) THEN y ELSE x
Wins == y # None0 => \A k \in DOMAIN M.attr : \A f \in DOMAIN M.attr[k] :
          LET v == At(Last(k, f))[k][f] IN ~Mapping(f, v) => M.attr[k][f] = v
Keeps == y # None0 =>
         /\ DOMAIN M.attr = DOMAIN At(x) \cup DOMAIN At(y) \cup DOMAIN At(z)
         /\ \A r \in {x, y, z} : \A k \in DOMAIN At(r) : DOMAIN At(r)[k] \subseteq DOMAIN M.attr[k]
         /\ \A k \in DOMAIN M.attr : \A f \in DOMAIN M.attr[k] : Has(x, k, f) \/ Has(y, k, f) \/ Has(z, k, f)
Pairs(r, k, f) == IF ~Has(r, k, f) THEN <<>> ELSE IF f = "default" THEN (IF Kind(At(r)[k][f]) = "d" THEN Pay(At(r)[k][f]) ELSE <<>>) ELSE At(r)[k][f]
Merges == y # None0 => \A k \in DOMAIN M.attr : \A f \in DOMAIN M.attr[k] \cap {"remap", "args"} :
            PairsFn(M.attr[k][f]) = Override(Override(PairsFn(Pairs(x, k, f)), PairsFn(Pairs(y, k, f))), PairsFn(Pairs(z, k, f)))
MergesOnly == y # None0 => LET o(r) == IF "only" \in DOMAIN r THEN PairsFn(r.only) ELSE EmptyFn IN PairsFn(M.only) = Override(Override(o(x), o(y)), o(z))
LastLevel == y # None0 => (M.level = IF "level" \in DOMAIN z THEN z.level ELSE IF "level" \in DOMAIN y THEN y.level ELSE IF "level" \in DOMAIN x THEN x.level ELSE "DEFAULT")
Idempotent == y # None0 =>
  /\ NormRaw(Whole(<<x, x, y>>)) = NormRaw(Whole(<<x, y>>))
  /\ NormRaw(Whole(<<y, x, x>>)) = NormRaw(Whole(<<y, x>>))
(* normal form: declared values converted, same footprint when given back as a definition *)
F == MakeFootprint(<<RawPart(x), RawPart(y), RawPart(z)>>, E0)
Fagain == MakeFootprint(<<AsPart(F.fp)>>, E0)
SameD(a, b) == /\ DOMAIN a = DOMAIN b
               /\ \A f \in DOMAIN a : IF f = "remap" THEN PairsFn(a[f]) = PairsFn(b[f]) ELSE a[f] = b[f]
Stable == y # None0 /\ F.ok /\ F.fp.attr # EmptyFn => /\ Fagain.ok /\ DOMAIN Fagain.fp.attr = DOMAIN F.fp.attr
                 /\ \A k \in DOMAIN F.fp.attr : SameD(Fagain.fp.attr[k], F.fp.attr[k])
                 /\ Fagain.fp.only = F.fp.only /\ Fagain.fp.level = F.fp.level
Converted == y # None0 /\ F.ok => \A k \in DOMAIN F.fp.attr : \A i \in 1..Len(F.fp.attr[k].values) :
               /\ IsInst(F.fp.attr[k].values[i], Typ(F.fp.attr[k]), E0)
               /\ \A j \in 1..Len(F.fp.attr[k].values) : i # j => ~PyEq(F.fp.attr[k].values[i], F.fp.attr[k].values[j])
=============================================================================
