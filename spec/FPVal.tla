-------------------------------- MODULE FPVal --------------------------------
(* Values handled by the library, as pairs <<kind, payload>>.

     n None          u the UNKNOWN constant
     s str           S FPStr             U Up (a str type of the harness: upper case + suffix, refuses '!')
     i int           b bool              f float (one decimal digit)       - payloads are strings
     l list  L FPList    t tuple  T FPTuple    d dict  D FPDict   e set  E FPSet   - payloads are sequences
     F a value object of the harness (class Foo), equal by tag      G the same, of class FooSub
     o a footprint object (payload: its identifier)      c a class (payload: its name)
     R a regular expression (payload: see FPRegexp)  V a default with a footprint_value method *)
EXTENDS FPText

None == <<"n", "">>
Unknown == <<"u", "">>
SV(x) == <<"s", x>>
IV(n) == <<"i", IntStr(n)>>
BV(x) == <<"b", IF x THEN "T" ELSE "F">>

Kind(v) == v[1]
Pay(v) == v[2]

StrKinds == {"s", "S", "U", "u"}
NumKinds == {"i", "b", "f"}
ListKinds == {"l", "L"}
TupleKinds == {"t", "T"}
DictKinds == {"d", "D"}
SetKinds == {"e", "E"}
SeqKinds == ListKinds \cup TupleKinds \cup SetKinds

IsStr(v) == Kind(v) \in StrKinds
Text(v) == IF Kind(v) = "u" THEN "__unknown__" ELSE Pay(v)

(* ten times the numeric value *)
NumKey(v) == CASE Kind(v) = "i" -> 10 * IntOf(Pay(v))
               [] Kind(v) = "b" -> IF Pay(v) = "T" THEN 10 ELSE 0
               [] OTHER -> LET p == SplitOn(LStripC(Pay(v), "-"), ".")
                               m == 10 * NatOf(p[1]) + NatOf(p[2])
                           IN IF StartsWith(Pay(v), "-") THEN 0 - m ELSE m

(* Python equality *)
RECURSIVE PyEq(_, _)
PyEq(a, b) ==
  LET ka == Kind(a) kb == Kind(b) IN
  CASE ka \in NumKinds /\ kb \in NumKinds -> NumKey(a) = NumKey(b)
    [] ka \in StrKinds /\ kb \in StrKinds -> Text(a) = Text(b)
    [] (ka \in ListKinds /\ kb \in ListKinds) \/ (ka \in TupleKinds /\ kb \in TupleKinds) ->
         /\ Len(Pay(a)) = Len(Pay(b))
         /\ \A i \in 1..Len(Pay(a)) : PyEq(Pay(a)[i], Pay(b)[i])
    [] ka \in SetKinds /\ kb \in SetKinds ->
         /\ \A i \in 1..Len(Pay(a)) : \E j \in 1..Len(Pay(b)) : PyEq(Pay(a)[i], Pay(b)[j])
         /\ \A i \in 1..Len(Pay(b)) : \E j \in 1..Len(Pay(a)) : PyEq(Pay(a)[j], Pay(b)[i])
    [] ka \in DictKinds /\ kb \in DictKinds ->
         /\ Len(Pay(a)) = Len(Pay(b))
         /\ \A i \in 1..Len(Pay(a)) : \E j \in 1..Len(Pay(b)) :
              PyEq(Pay(a)[i][1], Pay(b)[j][1]) /\ PyEq(Pay(a)[i][2], Pay(b)[j][2])
    [] ka \in {"F", "G"} /\ kb \in {"F", "G"} -> Pay(a) = Pay(b)
    [] ka = kb /\ ka \in {"n", "o", "c", "R"} -> Pay(a) = Pay(b)
    [] OTHER -> FALSE

(* The same value with the same type, whatever the order of sets and mappings *)
RECURSIVE Same(_, _)
Same(a, b) ==
  LET k == Kind(a) IN
  /\ k = Kind(b)
  /\ CASE k \in ListKinds \cup TupleKinds ->
            Len(Pay(a)) = Len(Pay(b)) /\ \A i \in 1..Len(Pay(a)) : Same(Pay(a)[i], Pay(b)[i])
       [] k \in SetKinds ->
            /\ Len(Pay(a)) = Len(Pay(b))
            /\ \A i \in 1..Len(Pay(a)) : \E j \in 1..Len(Pay(b)) : Same(Pay(a)[i], Pay(b)[j])
            /\ \A i \in 1..Len(Pay(b)) : \E j \in 1..Len(Pay(a)) : Same(Pay(a)[j], Pay(b)[i])
       [] k \in DictKinds ->
            /\ Len(Pay(a)) = Len(Pay(b))
            /\ \A i \in 1..Len(Pay(a)) : \E j \in 1..Len(Pay(b)) :
                 Same(Pay(a)[i][1], Pay(b)[j][1]) /\ Same(Pay(a)[i][2], Pay(b)[j][2])
       [] k = "V" -> Same(Pay(a), Pay(b))
       [] OTHER -> Pay(a) = Pay(b)

RECURSIVE PyHashable(_)
PyHashable(v) ==
  CASE Kind(v) \in {"l", "d", "e"} -> FALSE
    [] Kind(v) \in {"L", "t", "T", "E"} -> \A i \in 1..Len(Pay(v)) : PyHashable(Pay(v)[i])
    [] Kind(v) = "D" -> \A i \in 1..Len(Pay(v)) : PyHashable(Pay(v)[i][1]) /\ PyHashable(Pay(v)[i][2])
    [] OTHER -> TRUE

Truthy(v) ==
  CASE Kind(v) = "n" -> FALSE
    [] IsStr(v) -> Text(v) # ""
    [] Kind(v) \in NumKinds -> NumKey(v) # 0
    [] Kind(v) \in SeqKinds \cup DictKinds -> Len(Pay(v)) > 0
    [] OTHER -> TRUE

(* str() and repr() *)
Q(x) == LET y == EscapeC(x, "\\", 1) IN
        IF ~Contains(x, "'") THEN "'" \o y \o "'"
        ELSE IF ~Contains(x, "\"") THEN "\"" \o y \o "\"" ELSE "'" \o EscapeC(y, "'", 1) \o "'"
RECURSIVE Str(_), Repr(_), ReprSeq(_, _), ReprPairs(_, _)
Repr(v) == IF IsStr(v) THEN Q(Text(v)) ELSE Str(v)
ReprSeq(s, i) == IF i > Len(s) THEN "" ELSE (IF i > 1 THEN ", " ELSE "") \o Repr(s[i]) \o ReprSeq(s, i + 1)
ReprPairs(s, i) == IF i > Len(s) THEN "" ELSE
  (IF i > 1 THEN ", " ELSE "") \o Repr(s[i][1]) \o ": " \o Repr(s[i][2]) \o ReprPairs(s, i + 1)
Str(v) ==
  LET k == Kind(v) IN
  CASE k \in StrKinds -> Text(v)
    [] k = "n" -> "None"
    [] k = "b" -> IF Pay(v) = "T" THEN "True" ELSE "False"
    [] k \in {"i", "f"} -> Pay(v)
    [] k \in ListKinds -> "[" \o ReprSeq(Pay(v), 1) \o "]"
    [] k \in TupleKinds -> IF Len(Pay(v)) = 1 THEN "(" \o Repr(Pay(v)[1]) \o ",)" ELSE "(" \o ReprSeq(Pay(v), 1) \o ")"
    [] k \in DictKinds -> "{" \o ReprPairs(Pay(v), 1) \o "}"
    [] k = "e" -> IF Pay(v) = <<>> THEN "set()" ELSE "{" \o ReprSeq(Pay(v), 1) \o "}"
    [] k = "E" -> IF Pay(v) = <<>> THEN "FPSet()" ELSE "FPSet({" \o ReprSeq(Pay(v), 1) \o "})"
    [] k \in {"F", "G"} -> "Foo(" \o Pay(v) \o ")"
    [] k = "o" -> "obj:" \o Pay(v)
    [] k = "c" -> "<class '" \o (IF Pay(v) \in {"Foo", "FooSub"} THEN "vhtypes." ELSE "") \o Pay(v) \o "'>"
    [] OTHER -> "?" \o k

(* isinstance(v, T).  C: [ocls: object -> class name, mro: class name -> set of its ancestors' names] *)
IsInst(v, T, C) ==
  LET k == Kind(v) IN
  CASE T = "str" -> k \in StrKinds
    [] T = "FPStr" -> k = "S"
    [] T = "Up" -> k = "U"
    [] T = "int" -> k \in {"i", "b"}
    [] T = "bool" -> k = "b"
    [] T = "float" -> k = "f"
    [] T = "list" -> k \in ListKinds
    [] T = "FPList" -> k = "L"
    [] T = "tuple" -> k \in TupleKinds
    [] T = "FPTuple" -> k = "T"
    [] T = "dict" -> k \in DictKinds
    [] T = "FPDict" -> k = "D"
    [] T = "set" -> k \in SetKinds
    [] T = "FPSet" -> k = "E"
    [] T = "Foo" -> k \in {"F", "G"}
    [] T = "FooSub" -> k = "G"
    [] T = "object" -> TRUE
    [] OTHER -> k = "o" /\ Pay(v) \in DOMAIN C.ocls /\ C.ocls[Pay(v)] \in DOMAIN C.mro /\ T \in C.mro[C.ocls[Pay(v)]]

(* issubclass(v, T) for a class value *)
BuiltinMro(n) ==
  CASE n = "str" -> {"str"} [] n = "FPStr" -> {"FPStr", "str"} [] n = "Up" -> {"Up", "str"}
    [] n = "int" -> {"int"} [] n = "bool" -> {"bool", "int"} [] n = "float" -> {"float"}
    [] n = "FPList" -> {"FPList", "list"} [] n = "list" -> {"list"}
    [] n = "Foo" -> {"Foo"} [] n = "FooSub" -> {"FooSub", "Foo"} [] OTHER -> {n}
IsSubclass(v, T, C) ==
  Kind(v) = "c" /\ (T = "object" \/ T \in (IF Pay(v) \in DOMAIN C.mro THEN C.mro[Pay(v)] ELSE BuiltinMro(Pay(v))))

RECURSIVE Dedup(_, _)
Dedup(s, acc) == IF s = <<>> THEN acc
                 ELSE Dedup(Tail(s), IF \E i \in 1..Len(acc) : PyEq(acc[i], s[1]) THEN acc ELSE Append(acc, s[1]))
Chars(x) == [i \in 1..Len(x) |-> SV(Chr(x, i))]

(* The items obtained by iteration *)
Iterable(v) == IsStr(v) \/ Kind(v) \in SeqKinds \cup DictKinds
Items(v) == IF IsStr(v) THEN Chars(Text(v))
            ELSE IF Kind(v) \in DictKinds THEN [i \in 1..Len(Pay(v)) |-> Pay(v)[i][1]]
            ELSE Pay(v)

ArgOr(args, n, dflt) == IF \E i \in 1..Len(args) : args[i][1] = n
                        THEN args[CHOOSE i \in 1..Len(args) : args[i][1] = n][2] ELSE dflt

LooksFloat(x) == LET t == Strip(x) u == IF StartsWith(t, "-") THEN Drop(t, 1) ELSE t p == SplitOn(u, ".") IN
                 Len(p) = 2 /\ AllDigits(p[1]) /\ AllDigits(p[2]) /\ Len(p[2]) = 1
TruncF(x) == IntStr(IntOf(SplitOn(x, ".")[1]))

Ok(v) == <<"ok", v>>
Bad == <<"bad", "">>

(* A mapping made from a sequence of pairs: the last value of a key wins *)
ArePairs(its) == \A i \in 1..Len(its) : Iterable(its[i]) /\ Len(Items(its[i])) = 2 /\ PyHashable(Items(its[i])[1])
RECURSIVE FromPairs(_, _)
FromPairs(its, acc) ==
  IF its = <<>> THEN acc
  ELSE LET p == Items(its[1]) IN
       FromPairs(Tail(its), IF \E j \in 1..Len(acc) : PyEq(acc[j][1], p[1])
                            THEN [j \in 1..Len(acc) |-> IF PyEq(acc[j][1], p[1]) THEN <<acc[j][1], p[2]>> ELSE acc[j]]
                            ELSE Append(acc, <<p[1], p[2]>>))

RECURSIVE PutArgs(_, _)      \* dict(v, **args)
PutArgs(acc, args) ==
  IF args = <<>> THEN acc
  ELSE LET k == SV(args[1][1])
           at == {j \in 1..Len(acc) : PyEq(acc[j][1], k)}
       IN PutArgs(IF at # {} THEN [j \in 1..Len(acc) |-> IF j \in at THEN <<acc[j][1], args[1][2]>> ELSE acc[j]]
                  ELSE Append(acc, <<k, args[1][2]>>), Tail(args))

(* T(v, **args), for a value which is not already of this type *)
Conv(T, args, v) ==
  LET k == Kind(v)
      known == CASE T = "Up" -> {"suffix"} [] T = "int" -> {"base"} [] OTHER -> {}
  IN
  CASE T \notin {"FPDict", "dict"} /\ ~\A i \in 1..Len(args) : args[i][1] \in known -> Bad     \* unexpected arguments
    [] T = "str" -> Ok(SV(Str(v)))
    [] T = "FPStr" -> Ok(<<"S", Str(v)>>)
    [] T = "Up" -> IF Contains(Str(v), "!") THEN Bad ELSE Ok(<<"U", Upper(Str(v)) \o Str(ArgOr(args, "suffix", SV("")))>>)
    [] T = "int" ->
         IF Len(args) > 0 THEN (IF IsStr(v) /\ LooksHexInt(Text(v)) /\ Str(ArgOr(args, "base", SV(""))) = "16"
                                THEN Ok(<<"i", ParseHex(Text(v))>>) ELSE Bad)
         ELSE IF IsStr(v) THEN (IF LooksInt(Text(v)) THEN Ok(<<"i", ParseInt(Text(v))>>) ELSE Bad)
         ELSE IF k = "f" THEN Ok(<<"i", TruncF(Pay(v))>>)
         ELSE Bad
    [] T = "bool" -> Ok(BV(Truthy(v)))
    [] T = "float" ->
         IF IsStr(v) THEN (IF LooksInt(Text(v)) THEN Ok(<<"f", ParseInt(Text(v)) \o ".0">>)
                           ELSE IF LooksFloat(Text(v)) THEN Ok(<<"f", Strip(Text(v))>>) ELSE Bad)
         ELSE IF k \in {"i", "b"} THEN Ok(<<"f", IntStr(NumKey(v) \div 10) \o ".0">>)
         ELSE Bad
    [] T \in {"FPList", "list"} -> IF Iterable(v) THEN Ok(<<IF T = "list" THEN "l" ELSE "L", Items(v)>>) ELSE Bad
    [] T \in {"FPTuple", "tuple"} -> IF Iterable(v) THEN Ok(<<IF T = "tuple" THEN "t" ELSE "T", Items(v)>>) ELSE Bad
    [] T \in {"FPSet", "set"} -> IF Iterable(v) /\ \A i \in 1..Len(Items(v)) : PyHashable(Items(v)[i])
                                 THEN Ok(<<IF T = "set" THEN "e" ELSE "E", Dedup(Items(v), <<>>)>>) ELSE Bad
    [] T \in {"FPDict", "dict"} -> IF Kind(v) \in DictKinds THEN Ok(<<IF T = "dict" THEN "d" ELSE "D", PutArgs(Pay(v), args)>>)
                                   ELSE IF Iterable(v) /\ ArePairs(Items(v)) THEN Ok(<<IF T = "dict" THEN "d" ELSE "D", PutArgs(FromPairs(Items(v), <<>>), args)>>) ELSE Bad
    [] T \in {"Foo", "FooSub"} -> IF StartsWith(Str(v), "bad") THEN Bad ELSE Ok(<<IF T = "Foo" THEN "F" ELSE "G", Str(v)>>)
    [] OTHER -> Bad

InVals(v, vals) == \E i \in 1..Len(vals) : PyEq(v, vals[i])

(* Are two sequences the same set of values (types included) ? *)
SameSet(a, b) == /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : Same(a[i], b[j])
                 /\ \A j \in 1..Len(b) : \E i \in 1..Len(a) : Same(a[i], b[j])

Orderable(a, b) == (a[1] \in NumKinds /\ b[1] \in NumKinds) \/ (IsStr(a) /\ IsStr(b))
Less(a, b) == IF IsStr(a) THEN StrLess(Text(a), Text(b)) ELSE NumKey(a) < NumKey(b)
Geq(a, b) == ~Less(a, b)

(* ---------------------------------------------------------------------- *)
(* Format specifications: [name%fmt]                                        *)

Okf(x) == <<"ok", x>>
Err(e) == <<"err", e>>

FmtAligns == {"<", ">", "^"}
PadTo(x, fill, align, w) ==
  LET n == w - Len(x) IN
  IF n <= 0 THEN x
  ELSE CASE align = "<" -> x \o Repeat(fill, n)
         [] align = ">" -> Repeat(fill, n) \o x
         [] OTHER -> Repeat(fill, n \div 2) \o x \o Repeat(fill, n - (n \div 2))

RECURSIVE HexStr(_)
HexStr(n) == IF n < 16 THEN Chr("0123456789abcdef", n + 1) ELSE HexStr(n \div 16) \o HexStr(n % 16)

(* format(v, spec) for strings and integers; other values only accept an empty specification *)
FormatSpec(v, spec) ==
  LET hasfill == Len(spec) >= 2 /\ Chr(spec, 2) \in FmtAligns
      hasalign == hasfill \/ (Len(spec) >= 1 /\ Chr(spec, 1) \in FmtAligns)
      fill0 == IF hasfill THEN Chr(spec, 1) ELSE " "
      align0 == IF hasfill THEN Chr(spec, 2) ELSE IF hasalign THEN Chr(spec, 1) ELSE ""
      p1 == IF hasfill THEN 3 ELSE IF hasalign THEN 2 ELSE 1
      zero == p1 <= Len(spec) /\ Chr(spec, p1) = "0"
      p2 == IF zero THEN p1 + 1 ELSE p1
      e2 == SpanEnd(spec, p2, DigitSet)
      width == NatOf(SubSeq(spec, p2, e2 - 1))
      hasprec == e2 <= Len(spec) /\ Chr(spec, e2) = "."
      e3 == IF hasprec THEN SpanEnd(spec, e2 + 1, DigitSet) ELSE e2
      prec == NatOf(SubSeq(spec, e2 + 1, e3 - 1))
      rest == Drop(spec, e3 - 1)
      fill == IF hasfill THEN fill0 ELSE IF zero THEN "0" ELSE " "
  IN IF spec = "" THEN Okf(Str(v))
     ELSE IF IsStr(v) THEN
       IF rest \notin {"", "s"} \/ (hasprec /\ e3 = e2 + 1) THEN Err("ValueError")
       ELSE Okf(PadTo(IF hasprec /\ prec < Len(Text(v)) THEN SubSeq(Text(v), 1, prec) ELSE Text(v), fill,
                      IF align0 = "" THEN "<" ELSE align0, width))
     ELSE IF Kind(v) \in {"i", "b"} THEN
       IF rest \notin {"", "d", "x"} \/ hasprec THEN Err("ValueError")
       ELSE LET n == NumKey(v) \div 10
                neg == NumKey(v) < 0
                m == IF neg THEN (0 - NumKey(v)) \div 10 ELSE n
                digits == IF rest = "x" THEN HexStr(m) ELSE IntStr(m)
                sgn == IF neg THEN "-" ELSE ""
            IN IF zero /\ align0 = "" THEN Okf(sgn \o PadLeft(digits, "0", width - Len(sgn)))
               ELSE Okf(PadTo(sgn \o digits, fill, IF align0 = "" THEN ">" ELSE align0, width))
     ELSE IF Kind(v) = "f" THEN
       IF rest # "" \/ (hasprec /\ e3 = e2 + 1) THEN Err("ValueError")
       ELSE LET neg == StartsWith(Pay(v), "-")     \* (a precision of at least two digits leaves small numbers as they are)
                digits == IF neg THEN Drop(Pay(v), 1) ELSE Pay(v)
                sgn == IF neg THEN "-" ELSE ""
            IN IF zero /\ align0 = "" THEN Okf(sgn \o PadLeft(digits, "0", width - Len(sgn)))
               ELSE Okf(PadTo(Pay(v), fill, IF align0 = "" THEN ">" ELSE align0, width))
     ELSE Err("TypeError")

(* attribute or method of a value.  Result: <<"ok", v>>, <<"none">> (no such thing, or None) or <<"err", exception>>.
   names: the names of the attributes being resolved (what a method may look at). *)
None1 == <<"none", "">>
SubAttr(v, n, O, names) ==
  CASE IsStr(v) -> (CASE n = "upper" -> Okf(SV(Upper(Text(v))))
                      [] n = "lower" -> Okf(SV(Lower(Text(v))))
                      [] n = "strip" -> Okf(SV(Strip(Text(v))))
                      [] n = "isdigit" -> Okf(BV(AllDigits(Text(v))))
                      [] n = "sees" /\ Kind(v) = "U" -> Okf(SV(names))
                      [] OTHER -> None1)
    [] Kind(v) \in {"i", "b"} -> (CASE n \in {"real", "numerator"} -> Okf(IV(NumKey(v) \div 10))
                                    [] n = "imag" -> Okf(IV(0))
                                    [] OTHER -> None1)
    [] Kind(v) = "f" -> (CASE n = "real" -> Okf(v) [] n = "imag" -> Okf(<<"f", "0.0">>) [] OTHER -> None1)
    [] Kind(v) \in {"F", "G"} -> (CASE n = "tag" -> Okf(SV(Pay(v)))
                                    [] n = "size" -> Okf(IV(Len(Pay(v))))
                                    [] n = "child" -> Okf(<<"F", Pay(v) \o "x">>)
                                    [] n = "shout" -> Okf(SV(Upper(Pay(v))))
                                    [] n = "sees" -> Okf(SV(names))
                                    [] n = "brk" -> Okf(SV("[" \o Pay(v) \o "]"))
                                    [] n = "boom" -> Err("KeyError")
                                    [] OTHER -> None1)
    [] Kind(v) = "o" /\ Pay(v) \in DOMAIN O ->
         (CASE n \in DOMAIN O[Pay(v)].at -> (LET x == O[Pay(v)].at[n] IN IF Kind(x) \in {"n", "u"} THEN None1 ELSE Okf(x))
            [] n = "fpm" -> Okf(SV("fpm" \o O[Pay(v)].cls))
            [] OTHER -> None1)
    [] OTHER -> None1

(* "{0<fmt>}" or "{0:<fmt>}" applied to v: optional attribute (called without argument), conversion, specification *)
FormatField(v, fmt) ==
  IF ~(Contains(fmt, ":") \/ Contains(fmt, "!")) THEN FormatSpec(v, fmt)
  ELSE LET c == SpanNot(fmt, 1, ":")
           head == SubSeq(fmt, 1, c - 1)
           spec == Drop(fmt, c)
           b == SpanNot(head, 1, "!")
           path == SubSeq(head, 1, b - 1)
           conv == Drop(head, b)
           sub == IF path = "" THEN Okf(v)
                  ELSE LET r == SubAttr(v, Drop(path, 1), [z \in {} |-> z], "") IN
                       IF r[1] = "none" THEN Err("AttributeError") ELSE r
       IN IF sub[1] # "ok" THEN sub
          ELSE IF conv = "" THEN FormatSpec(sub[2], spec)
          ELSE IF conv = "r" THEN FormatSpec(SV(Repr(sub[2])), spec)
          ELSE FormatSpec(SV(Str(sub[2])), spec)
=============================================================================
