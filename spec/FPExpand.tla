------------------------------ MODULE FPExpand ------------------------------
(* Expansion of descriptions (footprints.util.expand), with globbing in a directory.

   A description is a sequence of pairs <<key, value>> (keys are distinct strings).  One step replaces the first
   expandable item of a description by each of its alternatives; a description without expandable items is a result. *)
EXTENDS FPVal, FPRegexp

(* ---------------------------------------------------------------------- *)
(* The text of regular expressions (the usual subset)                       *)

NoRx == <<"bad", <<>>, 0>>
GotRx(n, p) == <<"ok", n, p>>
WordChars == LowerCase \o UpperCase \o DigitChars \o "_"
SpaceChars == " \t\n\r"
EscSet(c) == CASE c = "d" -> <<"in", DigitChars>> [] c = "w" -> <<"in", WordChars>> [] c = "s" -> <<"in", SpaceChars>>
               [] c = "D" -> <<"notin", DigitChars>> [] c = "W" -> <<"notin", WordChars>> [] c = "S" -> <<"notin", SpaceChars>>
               [] OTHER -> <<"lit", c>>
BadEscape(c) == c \in (LowerSet \cup UpperSet \cup DigitSet) \ {"d", "w", "s", "D", "W", "S"}

RECURSIVE CharsBetween(_, _)
CharsBetween(a, b) == IF AsciiRank[a] > AsciiRank[b] THEN "" ELSE IF a = b THEN a
                      ELSE a \o CharsBetween(Chr(Ascii, AsciiRank[a] + 1), b)

(* [...]: from the character after the opening bracket; acc is the string of the members *)
RECURSIVE RxClass(_, _, _, _)
RxClass(s, p, acc, neg) ==
  IF p > Len(s) THEN NoRx
  ELSE LET c == Chr(s, p) IN
       IF c = "]" THEN GotRx(<<IF neg THEN "notin" ELSE "in", acc>>, p + 1)
       ELSE IF c = "\\" THEN (IF p = Len(s) \/ BadEscape(Chr(s, p + 1)) \/ EscSet(Chr(s, p + 1))[1] = "notin" THEN NoRx
                              ELSE RxClass(s, p + 2, acc \o EscSet(Chr(s, p + 1))[2], neg))
       ELSE IF p + 2 <= Len(s) /\ Chr(s, p + 1) = "-" /\ Chr(s, p + 2) # "]" THEN
              (IF AsciiRank[c] > AsciiRank[Chr(s, p + 2)] THEN NoRx
               ELSE RxClass(s, p + 3, acc \o CharsBetween(c, Chr(s, p + 2)), neg))
       ELSE RxClass(s, p + 1, acc \o c, neg)

RECURSIVE RxParseAlt(_, _, _), RxParseSeq(_, _, _), RxParseAtom(_, _), RxQuant(_, _, _)
(* alternatives, up to the end or to a closing bracket *)
RxParseAlt(s, p, acc) ==
  LET q == RxParseSeq(s, p, <<>>) IN
  IF q[1] = "bad" THEN NoRx
  ELSE LET more == Append(acc, q[2]) IN
       IF q[3] <= Len(s) /\ Chr(s, q[3]) = "|" THEN RxParseAlt(s, q[3] + 1, more)
       ELSE GotRx(IF Len(more) = 1 THEN more[1] ELSE <<"alt", more>>, q[3])
RxParseSeq(s, p, acc) ==
  IF p > Len(s) \/ Chr(s, p) \in {"|", ")"} THEN GotRx(<<"seq", acc>>, p)
  ELSE LET a == RxParseAtom(s, p) IN
       IF a[1] = "bad" THEN NoRx
       ELSE LET b == RxQuant(s, a[3], a[2]) IN
            IF b[1] = "bad" THEN NoRx ELSE RxParseSeq(s, b[3], Append(acc, b[2]))
RxParseAtom(s, p) ==
  LET c == Chr(s, p) IN
  CASE c = "(" -> (LET start == IF SubSeq(s, p + 1, IF p + 2 > Len(s) THEN Len(s) ELSE p + 2) = "?:" THEN p + 3 ELSE p + 1
                       r == RxParseAlt(s, start, <<>>)
                   IN IF r[1] = "bad" \/ r[3] > Len(s) THEN NoRx ELSE GotRx(r[2], r[3] + 1))
    [] c = "[" -> IF p < Len(s) /\ Chr(s, p + 1) = "^" THEN RxClass(s, p + 2, "", TRUE) ELSE RxClass(s, p + 1, "", FALSE)
    [] c = "\\" -> IF p = Len(s) \/ BadEscape(Chr(s, p + 1)) THEN NoRx ELSE GotRx(EscSet(Chr(s, p + 1)), p + 2)
    [] c = "." -> GotRx(<<"any">>, p + 1)
    [] c \in {"*", "+", "?"} -> NoRx                                         \* nothing to repeat
    [] OTHER -> GotRx(<<"lit", c>>, p + 1)
RxQuant(s, p, n) ==
  IF p > Len(s) THEN GotRx(n, p)
  ELSE LET c == Chr(s, p)
           lazy == p < Len(s) /\ Chr(s, p + 1) = "?"
           e == SpanEnd(s, p + 1, DigitSet)
           of(k) == IF lazy THEN GotRx(<<"lazy", <<k, n>>>>, p + 2) ELSE GotRx(<<k, n>>, p + 1)
           more == p + 1 <= Len(s) /\ Chr(s, p + 1) = "*"
       IN CASE c \in {"*", "+", "?"} /\ more -> NoRx                          \* multiple repeat
            [] c = "*" -> of("star")
            [] c = "+" -> of("plus")
            [] c = "?" -> of("opt")
            [] c = "{" /\ e > p + 1 /\ e <= Len(s) /\ Chr(s, e) = "}" ->
                 GotRx(<<"seq", [i \in 1..NatOf(SubSeq(s, p + 1, e - 1)) |-> n]>>, e + 1)
            [] OTHER -> GotRx(n, p)
RxParse(s) == LET r == RxParseAlt(s, 1, <<>>) IN IF r[1] = "ok" /\ r[3] = Len(s) + 1 THEN r ELSE NoRx

(* ---------------------------------------------------------------------- *)
(* Glob strings: text{glob:name:expression}text...                          *)

(* at position p, the name and the end of "{glob:name:" (0: no such thing) *)
GlobStart(s, p) ==
  IF p + 6 > Len(s) \/ SubSeq(s, p, p + 5) # "{glob:" THEN 0
  ELSE LET e == SpanEnd(s, p + 6, WordSet) IN
       IF e > p + 6 /\ e <= Len(s) /\ Chr(s, e) = ":" THEN e ELSE 0
HasGlob(s) == \E p \in 1..Len(s) : GlobStart(s, p) > 0

(* the end of the expression which begins at position b: the first closing bracket which is neither escaped nor balanced *)
RECURSIVE GlobEnd(_, _, _, _)
GlobEnd(s, b, p, depth) ==
  IF p > Len(s) THEN 0
  ELSE LET esc == p > b /\ Chr(s, p - 1) = "\\" c == Chr(s, p) IN
       IF c = "{" /\ ~esc THEN GlobEnd(s, b, p + 1, depth + 1)
       ELSE IF c = "}" /\ ~esc THEN (IF depth = 0 THEN p ELSE GlobEnd(s, b, p + 1, depth - 1))
       ELSE GlobEnd(s, b, p + 1, depth)

(* The parts of a glob string: <<"txt", character>> and <<"grp", name, syntax tree>>; <<"bad">> if it is ill-formed *)
RECURSIVE GlobParts(_, _, _)
GlobParts(s, p, acc) ==
  IF p > Len(s) THEN <<"ok", acc>>
  ELSE LET g == GlobStart(s, p) IN
       IF g = 0 THEN GlobParts(s, p + 1, Append(acc, <<"txt", Chr(s, p)>>))
       ELSE LET name == SubSeq(s, p + 6, g - 1)
                e == GlobEnd(s, g + 1, g + 1, 0)
                rx == RxParse(SubSeq(s, g + 1, e - 1))
            IN IF (\E i \in 1..Len(acc) : acc[i][1] = "grp" /\ acc[i][2] = name) \/ Chr(name, 1) \in DigitSet
                  \/ e = 0 \/ rx[1] = "bad" THEN <<"bad", <<>>>>
               ELSE GlobParts(s, e + 1, Append(acc, <<"grp", name, rx[2]>>))

(* the whole expression *)
GlobRx(parts) ==
  <<"seq", SubSeq([i \in 1..Len(parts) |->
     CASE parts[i][1] = "grp" -> <<"grp", parts[i][2], parts[i][3]>>
       [] parts[i][2] = "*" -> <<"star", <<"any">>>>
       [] parts[i][2] = "?" -> <<"any">>
       [] OTHER -> <<"lit", parts[i][2]>>], 1, Len(parts))>>

(* Which paths does the file system give ? Stars and question marks do not go through directories, nor match
   a leading dot. *)
RECURSIVE GlobText(_, _)
GlobText(parts, i) == IF i > Len(parts) THEN "" ELSE (IF parts[i][1] = "grp" THEN "*" ELSE parts[i][2]) \o GlobText(parts, i + 1)
FnRx(g) == <<"seq", [i \in 1..Len(g) |-> CASE Chr(g, i) = "*" -> <<"star", <<"notin", "">>>> [] Chr(g, i) = "?" -> <<"notin", "">>
                                            [] OTHER -> <<"lit", Chr(g, i)>>]>>
Magic(g) == Contains(g, "*") \/ Contains(g, "?")
SegMatch(g, s) == RxIsFull(FnRx(g), s) /\ (Magic(g) /\ StartsWith(s, ".") => StartsWith(g, "."))
PathMatch(g, s) ==
  LET a == SplitOn(g, "/") b == SplitOn(s, "/") IN
  Len(a) = Len(b) /\ \A i \in 1..Len(a) : SegMatch(a[i], b[i])

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ StrLess(x, y) IN <<m>> \o Sorted(S \ {m})

(* The matching files, in order, with their parts *)
GlobFiles(parts, files) ==
  LET rx == GlobRx(parts)
      g == GlobText(parts, 1)
      hit == Sorted({f \in files : PathMatch(g, f) /\ RxIsFull(rx, f)})
  IN SubSeq([i \in 1..Len(hit) |-> <<SV(hit[i]), RxFull(rx, hit[i])[1]>>], 1, Len(hit))

(* [glob:name] references in a string, in one pass *)
RECURSIVE GlobSubst(_, _, _)
GlobSubst(s, p, m) ==
  IF p > Len(s) THEN ""
  ELSE LET e == SpanEnd(s, p + 6, WordSet) IN
       IF p + 6 < Len(s) /\ SubSeq(s, p, p + 5) = "[glob:" /\ e > p + 6 /\ e <= Len(s) /\ Chr(s, e) = "]"
          /\ SubSeq(s, p + 6, e - 1) \in DOMAIN m
       THEN m[SubSeq(s, p + 6, e - 1)] \o GlobSubst(s, e + 1, m)
       ELSE Chr(s, p) \o GlobSubst(s, p + 1, m)

(* ---------------------------------------------------------------------- *)
(* Expansion                                                                *)

Protected == {"S", "L", "T", "D", "E", "R"}

RangeArgs(s) ==     \* <<>>: not a range
  LET n == Len(s) IN
  IF n < 8 \/ Lower(SubSeq(s, 1, 6)) # "range(" \/ Chr(s, n) # ")" THEN <<>>
  ELSE LET a == SplitOn(SubSeq(s, 7, n - 1), ",") IN
       IF Len(a) <= 3 /\ \A i \in 1..Len(a) : AllDigits(a[i]) THEN [i \in 1..Len(a) |-> NatOf(a[i])] ELSE <<>>
RECURSIVE Steps(_, _, _)
Steps(a, b, st) == IF a > b THEN <<>> ELSE <<<<IV(a), EmptyFn>>>> \o Steps(a + st, b, st)

Plain(vals) == SubSeq([i \in 1..Len(vals) |-> <<vals[i], EmptyFn>>], 1, Len(vals))
Keys(d) == {d[i][1] : i \in 1..Len(d)}
Item(d, k) == d[CHOOSE i \in 1..Len(d) : d[i][1] = k][2]

ExpandableText(v) == IsStr(v) /\ Kind(v) # "S" /\
  (RangeArgs(Text(v)) # <<>> \/ Contains(Text(v), ",") \/ HasGlob(Text(v)))
Names(v, d) == {i \in 1..Len(Pay(v)) : IsStr(Pay(v)[i][1]) /\ Text(Pay(v)[i][1]) \in Keys(d)}
MatchingDict(v, d) == Kind(v) = "d" /\ Names(v, d) # {}
(* is the item named by a dictionary known for good ? *)
Ready(v, d) == ~(Kind(v) \in SeqKinds \/ ExpandableText(v) \/ MatchingDict(v, d))
ReadyNames(v, d) == {i \in Names(v, d) : Ready(Item(d, Text(Pay(v)[i][1])), d)}

Expandable(v, d) == Kind(v) \notin Protected /\
  (Kind(v) \in SeqKinds \/ ExpandableText(v) \/ (Kind(v) = "d" /\ ReadyNames(v, d) # {}))

(* The alternatives of an item: <<"ok", sequence of <<value, named parts>> >> or <<"err">> *)
Alternatives(v, d, files) ==
  IF Kind(v) \in SeqKinds THEN <<"ok", Plain(Pay(v))>>
  ELSE IF Kind(v) = "d" THEN
    LET i == CHOOSE x \in ReadyNames(v, d) : \A y \in ReadyNames(v, d) : x <= y
        inner == Pay(v)[i][2]
        name == Str(Item(d, Text(Pay(v)[i][1])))
        at == {j \in 1..Len(Pay(inner)) : IsStr(Pay(inner)[j][1]) /\ Text(Pay(inner)[j][1]) = name}
    IN IF at = {} THEN <<"err", <<>>>> ELSE <<"ok", Plain(<<Pay(inner)[CHOOSE j \in at : TRUE][2]>>)>>
  ELSE IF RangeArgs(Text(v)) # <<>> THEN
    LET a == RangeArgs(Text(v)) IN
    IF Len(a) = 3 /\ a[3] = 0 THEN <<"err", <<>>>>
    ELSE <<"ok", Steps(a[1], IF Len(a) > 1 THEN a[2] ELSE a[1], IF Len(a) > 2 THEN a[3] ELSE 1)>>
  ELSE IF Contains(Text(v), ",") THEN LET a == SplitOn(Text(v), ",") IN <<"ok", Plain([i \in 1..Len(a) |-> SV(a[i])])>>
  ELSE LET p == GlobParts(Text(v), 1, <<>>) IN IF p[1] = "bad" THEN <<"err", <<>>>> ELSE <<"ok", GlobFiles(p[2], files)>>

(* the same sequence, evaluated once (TLC keeps function constructors unevaluated) *)
Eval(s) == SubSeq(s, 1, Len(s))

(* an alternative replaces the item, and its named parts are put in the other string items *)
Put(d, k, alt) ==
  Eval([i \in 1..Len(d) |->
     <<d[i][1], IF d[i][1] = k THEN alt[1]
                ELSE IF DOMAIN alt[2] = {} \/ ~IsStr(d[i][2]) \/ Kind(d[i][2]) = "u" THEN d[i][2]
                ELSE LET t == GlobSubst(Text(d[i][2]), 1, alt[2]) IN
                     IF t = Text(d[i][2]) THEN d[i][2] ELSE <<IF Kind(d[i][2]) = "S" THEN "S" ELSE "s", t>>>>])

Todo(d) == {i \in 1..Len(d) : Expandable(d[i][2], d)}
FirstOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* One step of the expansion of a description *)
StepOf(d, files) ==
  LET k == FirstOf(Todo(d)) a == Alternatives(d[k][2], d, files) IN
  IF a[1] = "err" THEN <<"err", <<>>>> ELSE <<"ok", Eval([i \in 1..Len(a[2]) |-> Put(d, d[k][1], a[2][i])])>>

RECURSIVE Expand(_, _), ExpandSeq(_, _, _)
ExpandSeq(ds, i, files) ==
  IF i > Len(ds) THEN <<"ok", <<>>>>
  ELSE LET a == Expand(ds[i], files) IN
       IF a[1] = "err" THEN a
       ELSE LET b == ExpandSeq(ds, i + 1, files) IN IF b[1] = "err" THEN b ELSE <<"ok", a[2] \o b[2]>>
Expand(d, files) ==
  IF Todo(d) = {} THEN <<"ok", <<d>>>>
  ELSE LET s == StepOf(d, files) IN IF s[1] = "err" THEN s ELSE ExpandSeq(s[2], 1, files)

(* ---------------------------------------------------------------------- *)
(* Results: each of them is numbered                                        *)

AsDict(d) == <<"d", [i \in 1..Len(d) |-> <<SV(d[i][1]), d[i][2]>>]>>
Without(d, k) == SelectSeq(d, LAMBDA x : x[1] # k)
SameDesc(a, b) == Same(AsDict(a), AsDict(b))
Numbered(d, n) == Append(Without(d, "index_expansion"), <<"index_expansion", IV(n)>>)

RECURSIVE BigSet(_)
BigSet(v) == CASE Kind(v) = "e" -> Len(Pay(v)) > 1 \/ \E i \in 1..Len(Pay(v)) : BigSet(Pay(v)[i])
               [] Kind(v) \in {"l", "t"} -> \E i \in 1..Len(Pay(v)) : BigSet(Pay(v)[i])
               [] Kind(v) = "d" -> \E i \in 1..Len(Pay(v)) : BigSet(Pay(v)[i][2])
               [] OTHER -> FALSE

Count(x, l) == Cardinality({i \in 1..Len(l) : SameDesc(Without(x, "index_expansion"), Without(l[i], "index_expansion"))})

(* Are the results of an expansion the expected ones ? (the elements of a set come in any order) *)
SameResults(want, got, any) ==
  /\ Len(want) = Len(got)
  /\ \A i \in 1..Len(got) : "index_expansion" \in Keys(got[i]) /\ Item(got[i], "index_expansion") = IV(i)
  /\ IF any THEN \A i \in 1..Len(want) : Count(want[i], want) = Count(want[i], got)
     ELSE \A i \in 1..Len(want) : SameDesc(Numbered(want[i], i), got[i])

(* ---------------------------------------------------------------------- *)
(* The state: a directory, the description given last and the results that are held                             *)

ExpInit == [files |-> {}, given |-> <<>>, out |-> <<>>]

RECURSIVE Mutate(_, _, _)
(* a change in place: of an item, or of the content of an item (path of positions) *)
Grow(v) ==
  LET g == SV("grown") IN
  CASE Kind(v) \in ListKinds -> <<Kind(v), Append(Pay(v), g)>>
    [] Kind(v) \in DictKinds -> <<Kind(v), Append(SelectSeq(Pay(v), LAMBDA x : ~PyEq(x[1], g)), <<g, g>>)>>
    [] Kind(v) \in SetKinds -> <<Kind(v), Append(SelectSeq(Pay(v), LAMBDA x : ~PyEq(x, g)), g)>>
    [] OTHER -> v
Mutate(v, path, j) ==
  IF j > Len(path) THEN Grow(v)
  ELSE IF Kind(v) \in DictKinds
       THEN <<Kind(v), [i \in 1..Len(Pay(v)) |-> IF i = path[j] THEN <<Pay(v)[i][1], Mutate(Pay(v)[i][2], path, j + 1)>> ELSE Pay(v)[i]]>>
       ELSE <<Kind(v), [i \in 1..Len(Pay(v)) |-> IF i = path[j] THEN Mutate(Pay(v)[i], path, j + 1) ELSE Pay(v)[i]]>>
SetItem(d, k, v) == IF k \in Keys(d) THEN [i \in 1..Len(d) |-> IF d[i][1] = k THEN <<k, v>> ELSE d[i]] ELSE Append(d, <<k, v>>)
ChangeDesc(d, e) ==
  CASE e.how = "set" -> SetItem(d, e.key, e.val)
    [] e.how = "del" -> Without(d, e.key)
    [] OTHER -> SetItem(d, e.key, Mutate(Item(d, e.key), e.path, 1))

Good(w) == [ok |-> TRUE, w |-> w, why |-> ""]
Wrong(w, why) == [ok |-> FALSE, w |-> w, why |-> why]
RECURSIVE Globs(_)
Globs(v) == CASE Kind(v) \in {"s", "U"} -> HasGlob(Pay(v))
              [] Kind(v) \in {"l", "t", "e"} -> \E i \in 1..Len(Pay(v)) : Globs(Pay(v)[i])
              [] Kind(v) = "d" -> \E i \in 1..Len(Pay(v)) : Globs(Pay(v)[i][2])
              [] OTHER -> FALSE
HasGlobs(d) == \E i \in 1..Len(d) : Globs(d[i][2])

ExpStep(W, e) ==
  CASE e.op = "files" -> Good([W EXCEPT !.files = {e.names[i] : i \in 1..Len(e.names)}])
    [] e.op = "expand" ->
         LET want == Expand(e.desc, W.files)
             g == IF HasGlobs(e.desc) THEN "glob-" ELSE "expand-"
             any == \E i \in 1..Len(e.desc) : BigSet(e.desc[i][2])
         IN IF want[1] = "err" THEN
              IF e.res.k = "exc" THEN Good([W EXCEPT !.given = e.desc, !.out = <<>>]) ELSE Wrong(W, g \o "error")
            ELSE IF e.res.k = "exc" THEN Wrong(W, g \o "failed")
            ELSE IF ~SameResults(want[2], e.res.l, any) THEN Wrong(W, g \o "results")
            ELSE Good([W EXCEPT !.given = e.desc, !.out = e.res.l])
    [] e.op = "change" ->
         Good(IF e.i = 0 THEN [W EXCEPT !.given = ChangeDesc(W.given, e)]
              ELSE [W EXCEPT !.out[e.i] = ChangeDesc(W.out[e.i], e)])
    [] OTHER -> Wrong(W, "unknown-command")

ExpObs(W, o) ==
  LET g == IF HasGlobs(W.given) THEN "glob-" ELSE "expand-" IN
  IF ~SameDesc(W.given, o.given) THEN g \o "given"
  ELSE IF Len(W.out) # Len(o.out) \/ \E i \in 1..Len(W.out) : ~SameDesc(W.out[i], o.out[i]) THEN g \o "shared"
  ELSE ""
=============================================================================
