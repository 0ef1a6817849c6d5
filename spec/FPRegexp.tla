------------------------------ MODULE FPRegexp ------------------------------
(* Regular expressions as abstract syntax trees, with the ordered (backtracking) semantics of Python:
   a match gives the sequence of possible ends, by order of preference, with the captured groups.

     <<"lit", c>>  <<"any">>  <<"in", chars>>  <<"notin", chars>>
     <<"seq", nodes>>  <<"alt", nodes>>  <<"star", node>>  <<"plus", node>>  <<"opt", node>>  <<"lazy", <<star, plus or opt, node>> >>
     <<"grp", name, node>>                                                                                  *)
EXTENDS FPText

EmptyFn == [x \in {} |-> x]
PutFn(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

RECURSIVE RxAt(_, _, _, _), RxSeq(_, _, _, _, _), RxAlt(_, _, _, _, _), RxStar(_, _, _, _), RxAll(_, _, _, _, _)
(* apply RxSeq from node j on to each of the results rs (from the i-th) *)
RxAll(nodes, j, s, rs, i) ==
  IF i > Len(rs) THEN <<>> ELSE RxSeq(nodes, j, s, rs[i][1], rs[i][2]) \o RxAll(nodes, j, s, rs, i + 1)
RxSeq(nodes, j, s, p, caps) ==
  IF j > Len(nodes) THEN <<<<p, caps>>>>
  ELSE RxAll(nodes, j + 1, s, RxAt(nodes[j], s, p, caps), 1)
RxAlt(nodes, j, s, p, caps) ==
  IF j > Len(nodes) THEN <<>> ELSE RxAt(nodes[j], s, p, caps) \o RxAlt(nodes, j + 1, s, p, caps)
RECURSIVE RxStarMore(_, _, _, _, _)
RxStarMore(n, s, p, rs, i) ==
  IF i > Len(rs) THEN <<>>
  ELSE (IF rs[i][1] > p THEN RxStar(n, s, rs[i][1], rs[i][2]) ELSE <<>>) \o RxStarMore(n, s, p, rs, i + 1)
RECURSIVE RxLazy(_, _, _, _), RxLazyMore(_, _, _, _, _)
RxLazyMore(n, s, p, rs, i) ==
  IF i > Len(rs) THEN <<>>
  ELSE (IF rs[i][1] > p THEN RxLazy(n, s, rs[i][1], rs[i][2]) ELSE <<>>) \o RxLazyMore(n, s, p, rs, i + 1)
RxLazy(n, s, p, caps) == <<<<p, caps>>>> \o RxLazyMore(n, s, p, RxAt(n, s, p, caps), 1)
RxStar(n, s, p, caps) == RxStarMore(n, s, p, RxAt(n, s, p, caps), 1) \o <<<<p, caps>>>>
RECURSIVE RxGroup(_, _, _, _, _)
RxGroup(name, s, p, rs, i) ==
  IF i > Len(rs) THEN <<>>
  ELSE <<<<rs[i][1], PutFn(rs[i][2], name, SubSeq(s, p, rs[i][1] - 1))>>>> \o RxGroup(name, s, p, rs, i + 1)
RxAt(n, s, p, caps) ==
  LET one(ok) == IF p <= Len(s) /\ ok THEN <<<<p + 1, caps>>>> ELSE <<>> IN
  CASE n[1] = "lit" -> one(Chr(s, p) = n[2])
    [] n[1] = "any" -> one(Chr(s, p) # "\n")
    [] n[1] = "in" -> one(Contains(n[2], Chr(s, p)))
    [] n[1] = "notin" -> one(~Contains(n[2], Chr(s, p)))
    [] n[1] = "seq" -> RxSeq(n[2], 1, s, p, caps)
    [] n[1] = "alt" -> RxAlt(n[2], 1, s, p, caps)
    [] n[1] = "star" -> RxStar(n[2], s, p, caps)
    [] n[1] = "plus" -> RxSeq(<<n[2], <<"star", n[2]>>>>, 1, s, p, caps)
    [] n[1] = "opt" -> RxAt(n[2], s, p, caps) \o <<<<p, caps>>>>
    [] n[1] = "lazy" -> (CASE n[2][1] = "star" -> RxLazy(n[2][2], s, p, caps)
                           [] n[2][1] = "plus" -> RxSeq(<<n[2][2], <<"lazy", <<"star", n[2][2]>>>>>>, 1, s, p, caps)
                           [] OTHER -> <<<<p, caps>>>> \o RxAt(n[2][2], s, p, caps))
    [] n[1] = "grp" -> RxGroup(n[2], s, p, RxAt(n[3], s, p, caps), 1)

(* re.match: at the beginning of the string *)
RxMatch(n, s) == RxAt(n, s, 1, EmptyFn) # <<>>
(* Against a whole file name: the captures of the preferred complete match.  ns is what remains to be matched, in
   which <<"again", kind, n, p>> goes on with a repetition (which must have consumed something since p), and
   <<"end", name, p>> ends a group begun at p. *)
RECURSIVE RxWhole(_, _, _, _), RxFirst(_, _, _, _, _, _)
RxFirst(alts, i, rest, s, p, caps) ==
  IF i > Len(alts) THEN <<>>
  ELSE LET r == RxWhole(alts[i] \o rest, s, p, caps) IN IF r # <<>> THEN r ELSE RxFirst(alts, i + 1, rest, s, p, caps)
RxWhole(ns, s, p, caps) ==
  IF ns = <<>> THEN (IF p = Len(s) + 1 THEN <<caps>> ELSE <<>>)
  ELSE LET n == ns[1] rest == Tail(ns)
           one(ok) == IF p <= Len(s) /\ ok THEN RxWhole(rest, s, p + 1, caps) ELSE <<>>
           star(m) == <<<<m, <<"again", "star", m, p>>>>, <<>>>>
           lazystar(m) == <<<<>>, <<m, <<"again", "lazy", m, p>>>>>>
       IN CASE n[1] = "lit" -> one(Chr(s, p) = n[2])
            [] n[1] = "any" -> one(Chr(s, p) # "\n")
            [] n[1] = "in" -> one(Contains(n[2], Chr(s, p)))
            [] n[1] = "notin" -> one(~Contains(n[2], Chr(s, p)))
            [] n[1] = "seq" -> RxWhole(n[2] \o rest, s, p, caps)
            [] n[1] = "alt" -> RxFirst([i \in 1..Len(n[2]) |-> <<n[2][i]>>], 1, rest, s, p, caps)
            [] n[1] = "star" -> RxFirst(star(n[2]), 1, rest, s, p, caps)
            [] n[1] = "plus" -> RxWhole(<<n[2], <<"star", n[2]>>>> \o rest, s, p, caps)
            [] n[1] = "opt" -> RxFirst(<<<<n[2]>>, <<>>>>, 1, rest, s, p, caps)
            [] n[1] = "lazy" ->
                 (CASE n[2][1] = "star" -> RxFirst(lazystar(n[2][2]), 1, rest, s, p, caps)
                    [] n[2][1] = "plus" -> RxWhole(<<n[2][2], <<"lazy", <<"star", n[2][2]>>>>>> \o rest, s, p, caps)
                    [] OTHER -> RxFirst(<<<<>>, <<n[2][2]>>>>, 1, rest, s, p, caps))
            [] n[1] = "again" ->
                 IF p = n[4] THEN <<>>
                 ELSE RxFirst(IF n[2] = "star" THEN star(n[3]) ELSE lazystar(n[3]), 1, rest, s, p, caps)
            [] n[1] = "grp" -> RxWhole(<<n[3], <<"end", n[2], p>>>> \o rest, s, p, caps)
            [] n[1] = "end" -> RxWhole(rest, s, p, PutFn(caps, n[2], SubSeq(s, n[3], p - 1)))

(* the set of the positions that can be reached from a set of positions (groups set apart) *)
RECURSIVE RxReach(_, _, _), RxReachSeq(_, _, _, _), RxReachStar(_, _, _)
RxReachSeq(nodes, i, s, P) == IF i > Len(nodes) \/ P = {} THEN P ELSE RxReachSeq(nodes, i + 1, s, RxReach(nodes[i], s, P))
RxReachStar(n, s, P) == LET Q == P \cup RxReach(n, s, P) IN IF Q = P THEN P ELSE RxReachStar(n, s, Q)
RxReach(n, s, P) ==
  CASE n[1] = "lit" -> {p + 1 : p \in {x \in P : x <= Len(s) /\ Chr(s, x) = n[2]}}
    [] n[1] = "any" -> {p + 1 : p \in {x \in P : x <= Len(s) /\ Chr(s, x) # "\n"}}
    [] n[1] = "in" -> {p + 1 : p \in {x \in P : x <= Len(s) /\ Contains(n[2], Chr(s, x))}}
    [] n[1] = "notin" -> {p + 1 : p \in {x \in P : x <= Len(s) /\ ~Contains(n[2], Chr(s, x))}}
    [] n[1] = "seq" -> RxReachSeq(n[2], 1, s, P)
    [] n[1] = "alt" -> UNION {RxReach(n[2][i], s, P) : i \in 1..Len(n[2])}
    [] n[1] = "star" -> RxReachStar(n[2], s, P)
    [] n[1] = "plus" -> LET Q == RxReach(n[2], s, P) IN RxReachStar(n[2], s, Q)
    [] n[1] = "opt" -> P \cup RxReach(n[2], s, P)
    [] n[1] = "lazy" -> RxReach(n[2], s, P)
    [] n[1] = "grp" -> RxReach(n[3], s, P)
RxIsFull(n, s) == (Len(s) + 1) \in RxReach(n, s, {1})
RxFull(n, s) == IF RxIsFull(n, s) THEN RxWhole(<<n>>, s, 1, EmptyFn) ELSE <<>>
=============================================================================
