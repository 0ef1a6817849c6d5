------------------------------- MODULE FPText -------------------------------
(* Strings as finite sequences of one character strings (TLC strings). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Chr(s, i) == SubSeq(s, i, i)

LowerCase == "abcdefghijklmnopqrstuvwxyz"
UpperCase == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DigitChars == "0123456789"
CharSet(s) == {Chr(s, i) : i \in 1..Len(s)}
LowerSet == CharSet(LowerCase)
UpperSet == CharSet(UpperCase)
DigitSet == CharSet(DigitChars)
WordSet == LowerSet \cup UpperSet \cup DigitSet \cup {"_"}

IndexIn(s, c) == CHOOSE i \in 1..Len(s) : Chr(s, i) = c
LowerMap == [c \in UpperSet |-> Chr(LowerCase, IndexIn(UpperCase, c))]
UpperMap == [c \in LowerSet |-> Chr(UpperCase, IndexIn(LowerCase, c))]
DigitVal == [c \in DigitSet |-> IndexIn(DigitChars, c) - 1]
LowerChr(c) == IF c \in UpperSet THEN LowerMap[c] ELSE c
UpperChr(c) == IF c \in LowerSet THEN UpperMap[c] ELSE c

(* Printable ASCII, in code point order. *)
Ascii == "\n !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiRank == [c \in CharSet(Ascii) |-> IndexIn(Ascii, c)]

RECURSIVE LowerR(_, _)
LowerR(s, i) == IF i > Len(s) THEN "" ELSE LowerChr(Chr(s, i)) \o LowerR(s, i + 1)
Lower(s) == LowerR(s, 1)
RECURSIVE UpperR(_, _)
UpperR(s, i) == IF i > Len(s) THEN "" ELSE UpperChr(Chr(s, i)) \o UpperR(s, i + 1)
Upper(s) == UpperR(s, 1)

StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p

RECURSIVE RStripC(_, _)
RStripC(s, c) == IF Len(s) > 0 /\ Chr(s, Len(s)) = c THEN RStripC(SubSeq(s, 1, Len(s) - 1), c) ELSE s
RECURSIVE LStripC(_, _)
LStripC(s, c) == IF Len(s) > 0 /\ Chr(s, 1) = c THEN LStripC(SubSeq(s, 2, Len(s)), c) ELSE s
Strip(s) == LStripC(RStripC(s, " "), " ")

(* lexicographic order *)
RECURSIVE StrLess(_, _)
StrLess(a, b) ==
  IF Len(b) = 0 THEN FALSE
  ELSE IF Len(a) = 0 THEN TRUE
  ELSE LET ra == AsciiRank[Chr(a, 1)] rb == AsciiRank[Chr(b, 1)] IN
       IF ra # rb THEN ra < rb ELSE StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))

(* the first index >= i of a character that is not in the set C (Len(s)+1 if none) *)
RECURSIVE SpanEnd(_, _, _)
SpanEnd(s, i, C) == IF i > Len(s) THEN i ELSE IF Chr(s, i) \in C THEN SpanEnd(s, i + 1, C) ELSE i

RECURSIVE SpanNot(_, _, _)
SpanNot(s, i, c) == IF i > Len(s) THEN i ELSE IF Chr(s, i) = c THEN i ELSE SpanNot(s, i + 1, c)

(* split on a single character, as str.split(c) *)
RECURSIVE SplitOn(_, _)
SplitOn(s, c) == LET e == SpanNot(s, 1, c) IN
  IF e > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, e - 1)>> \o SplitOn(SubSeq(s, e + 1, Len(s)), c)

RECURSIVE Repeat(_, _)
Repeat(c, n) == IF n <= 0 THEN "" ELSE c \o Repeat(c, n - 1)

RECURSIVE JoinR(_, _, _)
JoinR(ss, sep, i) == IF i > Len(ss) THEN "" ELSE (IF i > 1 THEN sep ELSE "") \o ss[i] \o JoinR(ss, sep, i + 1)
Join(ss, sep) == JoinR(ss, sep, 1)

RECURSIVE EscapeC(_, _, _)
EscapeC(s, c, i) == IF i > Len(s) THEN "" ELSE (IF Chr(s, i) = c THEN "\\" \o c ELSE Chr(s, i)) \o EscapeC(s, c, i + 1)

(* decimal integers *)
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Chr(s, i) \in DigitSet
RECURSIVE NatOf(_)
NatOf(s) == IF Len(s) = 0 THEN 0 ELSE 10 * NatOf(SubSeq(s, 1, Len(s) - 1)) + DigitVal[Chr(s, Len(s))]
IntOf(s) == IF StartsWith(s, "-") THEN 0 - NatOf(Drop(s, 1)) ELSE IF StartsWith(s, "+") THEN NatOf(Drop(s, 1)) ELSE NatOf(s)
IntStr(n) == ToString(n)
LooksInt(s) == LET t == Strip(s) IN AllDigits(t) \/ ((StartsWith(t, "-") \/ StartsWith(t, "+")) /\ AllDigits(Drop(t, 1)))
ParseInt(s) == IntStr(IntOf(Strip(s)))

HexSet == DigitSet \cup CharSet("abcdefABCDEF")
HexVal(c) == IF c \in DigitSet THEN DigitVal[c] ELSE 9 + IndexIn("abcdef", LowerChr(c))
LooksHex(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : Chr(s, i) \in HexSet
RECURSIVE HexOf(_)
HexOf(s) == IF Len(s) = 0 THEN 0 ELSE 16 * HexOf(SubSeq(s, 1, Len(s) - 1)) + HexVal(Chr(s, Len(s)))
LooksHexInt(s) == LET t == Strip(s) IN LooksHex(IF StartsWith(t, "-") \/ StartsWith(t, "+") THEN Drop(t, 1) ELSE t)
ParseHex(s) == LET t == Strip(s) IN
  IntStr(IF StartsWith(t, "-") THEN 0 - HexOf(Drop(t, 1)) ELSE HexOf(IF StartsWith(t, "+") THEN Drop(t, 1) ELSE t))

PadLeft(s, c, n) == Repeat(c, n - Len(s)) \o s
PadRight(s, c, n) == s \o Repeat(c, n - Len(s))
=============================================================================
