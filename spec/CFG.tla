--------------------------------- MODULE CFG ---------------------------------
(***************************************************************************)
(* The meaning of a context-free grammar, stated declaratively: no         *)
(* algorithm of gogll appears here.  A grammar g is a record               *)
(*    [start |-> NT, prods |-> << [h |-> NT, a |-> alternate index,        *)
(*                                 b |-> << symbols >>], ... >>]           *)
(* A symbol is a non-terminal iff it heads a production.                   *)
(* An input w is a sequence of terminals; positions are 0..Len(w).         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

EOFSym == "$"

NTs(g) == {g.prods[i].h : i \in DOMAIN g.prods}
ProdsOf(g, X) == {p \in {g.prods[i] : i \in DOMAIN g.prods} : p.h = X}
Prods(g) == {g.prods[i] : i \in DOMAIN g.prods}
Syms(g) == UNION {{p.b[k] : k \in DOMAIN p.b} : p \in Prods(g)}
Terms(g) == Syms(g) \ NTs(g)

(* prods by head, as a function, for cheap lookup *)
ByHead(g) == TLCEval([X \in NTs(g) |-> ProdsOf(g, X)])

(***************************************************************************)
(* Derivation.  EndsTab(g, w)[X][l] = { r : X =>* w[l+1..r] }, the least   *)
(* fixpoint.                                                               *)
(***************************************************************************)
SymEnds(E, w, s, m) ==
  IF s \in DOMAIN E THEN E[s][m]
  ELSE IF m < Len(w) /\ w[m+1] = s THEN {m+1} ELSE {}

(* positions reachable by matching the first k symbols of b from l *)
RECURSIVE StrEnds(_, _, _, _, _)
StrEnds(E, w, b, k, l) ==
  IF k = 0 THEN {l}
  ELSE UNION {SymEnds(E, w, b[k], m) : m \in StrEnds(E, w, b, k-1, l)}

(* The fixpoint is computed row by row, from the last position down: what  *)
(* derives from l depends only on what derives from positions m >= l.      *)
RECURSIVE RowStr(_, _, _, _, _, _)
RowStr(D, R, w, b, k, l) ==
  IF k = 0 THEN {l}
  ELSE LET s == b[k] IN
       IF s \in DOMAIN R
       THEN UNION {IF m = l THEN R[s] ELSE D[m][s] : m \in RowStr(D, R, w, b, k-1, l)}
       ELSE {m+1 : m \in {m \in RowStr(D, R, w, b, k-1, l) : m < Len(w) /\ w[m+1] = s}}

RECURSIVE RowFix(_, _, _, _, _)
RowFix(bh, w, D, l, R) ==
  LET R1 == TLCEval([X \in DOMAIN R |-> UNION {RowStr(D, R, w, p.b, Len(p.b), l) : p \in bh[X]}])
  IN IF R1 = R THEN R ELSE RowFix(bh, w, D, l, R1)

RECURSIVE Rows(_, _, _, _)
Rows(bh, w, D, k) ==  (* D: rows of the positions k..Len(w) *)
  IF k = 0 THEN D
  ELSE LET R == RowFix(bh, w, D, k-1, [X \in DOMAIN bh |-> {}])
       IN Rows(bh, w, TLCEval((k-1 :> R) @@ D), k-1)

EndsTab(g, w) ==
  LET bh == ByHead(g)
      D == Rows(bh, w, [m \in {} |-> {}], Len(w)+1)
  IN TLCEval([X \in DOMAIN bh |-> [l \in 0..Len(w) |-> D[l][X]]])

InLanguage(g, w) == Len(w) \in EndsTab(g, w)[g.start][0]

(***************************************************************************)
(* Binary subtree representations: <<X, alternate, l, p, r>> stands for    *)
(* X => b with b[1..k-1] =>* w[l+1..p] and b[k] =>* w[p+1..r]; for an      *)
(* empty alternate l = p = r.                                              *)
(***************************************************************************)
BSRsOfProd(E, w, p, l, r) ==
  IF Len(p.b) = 0 THEN (IF l = r THEN {<<p.h, p.a, l, l, l>>} ELSE {})
  ELSE {<<p.h, p.a, l, m, r>> : m \in {m \in StrEnds(E, w, p.b, Len(p.b)-1, l) :
                                        r \in SymEnds(E, w, p.b[Len(p.b)], m)}}

BSRsAt(E, bh, w, X, l, r) ==
  IF r \in E[X][l] THEN UNION {BSRsOfProd(E, w, p, l, r) : p \in bh[X]} ELSE {}

TheProd(bh, X, a) == CHOOSE p \in bh[X] : p.a = a

ValidBSR(E, bh, w, x) ==
  /\ x[1] \in DOMAIN bh
  /\ \E p \in bh[x[1]] : p.a = x[2]
  /\ x[3] \in 0..Len(w) /\ x[5] \in 0..Len(w)
  /\ x \in BSRsOfProd(E, w, TheProd(bh, x[1], x[2]), x[3], x[5])

(* b[i..k] =>* w[m+1..r] *)
RECURSIVE Spans(_, _, _, _, _, _, _)
Spans(E, w, b, i, k, m, r) ==
  IF i > k THEN m = r
  ELSE \E q \in SymEnds(E, w, b[i], m) : Spans(E, w, b, i+1, k, q, r)

(* the extents symbol i of x may have, over all derivations x stands for *)
ChildExtents(E, bh, w, x, i) ==
  LET b == TheProd(bh, x[1], x[2]).b
      k == Len(b)
  IN IF i = k THEN {<<x[4], x[5]>>}
     ELSE UNION {{<<m, q>> : q \in {q \in SymEnds(E, w, b[i], m) :
                                     Spans(E, w, b, i+1, k-1, q, x[4])}}
                 : m \in StrEnds(E, w, b, i-1, x[3])}

Children(E, bh, w, x, i) ==
  LET s == TheProd(bh, x[1], x[2]).b[i]
  IN UNION {BSRsAt(E, bh, w, s, e[1], e[2]) : e \in ChildExtents(E, bh, w, x, i)}

Roots(E, bh, w, S) == BSRsAt(E, bh, w, S, 0, Len(w))

NTPos(bh, x) == LET b == TheProd(bh, x[1], x[2]).b IN {i \in DOMAIN b : b[i] \in DOMAIN bh}

RECURSIVE ForestFix(_, _, _, _, _)
ForestFix(E, bh, w, done, new) ==
  IF new = {} THEN done
  ELSE LET d1 == done \cup new
           nx == UNION {UNION {Children(E, bh, w, x, i) : i \in NTPos(bh, x)} : x \in new}
       IN ForestFix(E, bh, w, d1, TLCEval(nx \ d1))

(* every BSR of every derivation tree of the whole input *)
Forest(E, bh, w, S) == ForestFix(E, bh, w, {}, TLCEval(Roots(E, bh, w, S)))

(* more than one derivation tree *)
Ambiguous(E, bh, w, S) ==
  \/ Cardinality(Roots(E, bh, w, S)) # 1
  \/ \E x \in Forest(E, bh, w, S) : \E i \in NTPos(bh, x) : Cardinality(Children(E, bh, w, x, i)) # 1

(***************************************************************************)
(* Viable prefixes, for a grammar all of whose NTs are productive.  A call *)
(* <<X, l>> is possible if w[1..l] X begins some sentential form; an item  *)
(* <<p, l, k, j>> says that p.h can be called at l, and b[1..k] can derive *)
(* w[l+1..j].                                                              *)
(***************************************************************************)
(* << StrEnds(b, 0, l), ..., StrEnds(b, Len(b), l) >> *)
RECURSIVE PrefixEnds(_, _, _, _)
PrefixEnds(E, w, b, acc) ==
  LET k == Len(acc) IN
  IF k > Len(b) THEN acc
  ELSE PrefixEnds(E, w, b, Append(acc, TLCEval(UNION {SymEnds(E, w, b[k], m) : m \in acc[k]})))

CallItems(E, bh, w, c) ==
  UNION {LET pe == PrefixEnds(E, w, p.b, <<{c[2]}>>) IN
         UNION {{<<p, c[2], k-1, j>> : j \in pe[k]} : k \in DOMAIN pe} : p \in bh[c[1]]}

CallsOf(bh, Is) ==
  {<<it[1].b[it[3]+1], it[4]>> : it \in {it \in Is : it[3] < Len(it[1].b) /\ it[1].b[it[3]+1] \in DOMAIN bh}}

RECURSIVE ItemFix(_, _, _, _, _, _)
ItemFix(E, bh, w, called, new, Is) ==
  IF new = {} THEN Is
  ELSE LET I1 == TLCEval(UNION {CallItems(E, bh, w, c) : c \in new})
           c1 == TLCEval(called \cup new)
       IN ItemFix(E, bh, w, c1, TLCEval(CallsOf(bh, I1) \ c1), TLCEval(Is \cup I1))

ViableItems(g, w, E) == ItemFix(E, ByHead(g), w, {}, {<<g.start, 0>>}, {})

SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x

(* number of tokens in the longest prefix of w that begins some sentence *)
ViableOf(Is) == SetMax({it[4] : it \in Is})
ViableLen(g, w, E) == ViableOf(ViableItems(g, w, E))

(* the tokens t such that w[1..v] t begins some sentence, or is one: what   *)
(* the items at v can go on with                                           *)
NextOf(g, E, Is, v) ==
  {it[1].b[it[3]+1] : it \in {it \in Is : it[4] = v /\ it[3] < Len(it[1].b) /\ it[1].b[it[3]+1] \notin DOMAIN E}}
  \cup (IF v \in E[g.start][0] THEN {EOFSym} ELSE {})
NextTokens(g, w, v) == LET E == EndsTab(g, w) IN NextOf(g, E, ViableItems(g, w, E), v)

(* by definition: *)
NextTokensDef(g, w, v) ==
  LET pre == SubSeq(w, 1, v)
      ok(t) == LET x == Append(pre, t) IN ViableLen(g, x, EndsTab(g, x)) = v+1
  IN {t \in Terms(g) : ok(t)} \cup (IF InLanguage(g, pre) THEN {EOFSym} ELSE {})

(***************************************************************************)
(* Productive and reachable non-terminals                                  *)
(***************************************************************************)
RECURSIVE ProdFix(_, _)
ProdFix(g, P) ==
  LET P1 == P \cup {p.h : p \in {p \in Prods(g) : \A k \in DOMAIN p.b : p.b[k] \in (P \cup Terms(g))}}
  IN IF P1 = P THEN P ELSE ProdFix(g, P1)
Productive(g) == ProdFix(g, {})

RECURSIVE ReachNTFix(_, _)
ReachNTFix(g, P) ==
  LET P1 == P \cup UNION {{p.b[k] : k \in DOMAIN p.b} \cap NTs(g) : p \in {p \in Prods(g) : p.h \in P}}
  IN IF P1 = P THEN P ELSE ReachNTFix(g, P1)
Reachable(g) == ReachNTFix(g, {g.start})

Reduced(g) == NTs(g) \subseteq Productive(g) /\ NTs(g) \subseteq Reachable(g)

(***************************************************************************)
(* Nullable, FIRST, FOLLOW                                                 *)
(***************************************************************************)
RECURSIVE NullFix(_, _)
NullFix(g, N) ==
  LET N1 == N \cup {p.h : p \in {p \in Prods(g) : \A k \in DOMAIN p.b : p.b[k] \in N}}
  IN IF N1 = N THEN N ELSE NullFix(g, N1)
Nullable(g) == NullFix(g, {})

(* FIRST of a string without the empty string; F: NT -> set *)
RECURSIVE StrFirst(_, _, _)
StrFirst(F, N, b) ==
  IF b = <<>> THEN {}
  ELSE (IF Head(b) \in DOMAIN F THEN F[Head(b)] ELSE {Head(b)})
       \cup (IF Head(b) \in N THEN StrFirst(F, N, Tail(b)) ELSE {})

RECURSIVE FirstFix(_, _, _)
FirstFix(bh, N, F) ==
  LET F1 == TLCEval([X \in DOMAIN F |-> F[X] \cup UNION {StrFirst(F, N, p.b) : p \in bh[X]}])
  IN IF F1 = F THEN F ELSE FirstFix(bh, N, F1)
FirstTab(g) == FirstFix(ByHead(g), Nullable(g), [X \in NTs(g) |-> {}])

StrNullable(N, b) == \A k \in DOMAIN b : b[k] \in N

RECURSIVE FollowFix(_, _, _, _)
FollowFix(g, F, N, L) ==
  LET L1 == TLCEval([X \in DOMAIN L |-> L[X] \cup
              UNION {UNION {StrFirst(F, N, SubSeq(p.b, k+1, Len(p.b)))
                            \cup (IF StrNullable(N, SubSeq(p.b, k+1, Len(p.b))) THEN L[p.h] ELSE {})
                            : k \in {k \in DOMAIN p.b : p.b[k] = X}} : p \in Prods(g)}])
  IN IF L1 = L THEN L ELSE FollowFix(g, F, N, L1)
FollowTab(g) == FollowFix(g, FirstTab(g), Nullable(g),
                          [X \in NTs(g) |-> IF X = g.start THEN {EOFSym} ELSE {}])

(* what may come next at slot X : b[1..i] . b[i+1..] in some sentential form *)
SlotFirst(F, N, L, p, i) ==
  LET beta == SubSeq(p.b, i+1, Len(p.b))
  IN StrFirst(F, N, beta) \cup (IF StrNullable(N, beta) THEN L[p.h] ELSE {})
=============================================================================
