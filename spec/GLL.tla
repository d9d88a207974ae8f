--------------------------------- MODULE GLL ---------------------------------
(***************************************************************************)
(* The algorithm of the generated GLL parsers (clustered non-terminal      *)
(* parsing with a call return forest), as a state machine.  Which waiting  *)
(* descriptor is taken next is left open: every schedule is a behaviour.   *)
(* MCGLL.tla checks, for many grammars and inputs and all schedules, that  *)
(* whatever the schedule the machine stops with exactly the derivations    *)
(* CFG.tla gives the input, and errors as G05 describes them.              *)
(*                                                                         *)
(* A slot is << p, k >>: production p, of which k symbols are behind.      *)
(* A descriptor is << p, k, i, j >>: the slot, where p started, where the  *)
(* input is now.                                                           *)
(***************************************************************************)
EXTENDS CFG, Integers

VARIABLES g, w,        \* the grammar, the input; fixed
          R,           \* descriptors waiting
          U,           \* descriptors ever made
          crf,         \* clusters called, with the slots and starts to return to
          popped,      \* << X, i, j >>: X was parsed from i to j
          bsrs,        \* << p, k, i, pivot, j >>
          errs         \* << p, k, j, expected >>
vars == <<g, w, R, U, crf, popped, bsrs, errs>>

(* what of a grammar alone the tests need; kept in TLC registers by MCGLL  *)
CONSTANTS First(_, _, _), Follow(_, _),    \* (grammar, production, k), (grammar, head)
          Ends(_, _), Tree(_, _)           \* (grammar, input): EndsTab and Forest

Tok(j) == IF j < Len(w) THEN w[j+1] ELSE EOFSym
Alts(X) == ProdsOf(g, X)

(* ntAdd: the alternates of X that the next token selects, or the errors   *)
Selected(X, j) == {p \in Alts(X) : Tok(j) \in First(g, p, 0)}
Started(X, j) == {<<p, 0, j, j>> : p \in Selected(X, j)}
StartErrs(X, j) ==
  IF Selected(X, j) # {} THEN {}
  ELSE {<<p, 0, j, UNION {First(g, q, 0) : q \in Alts(X)}>> : p \in Alts(X)}

(* follow the slot over terminals to a call, the end or a failure          *)
RECURSIVE Scan(_, _, _, _, _, _)
Scan(p, k, i, j, first, bs) ==
  IF k = Len(p.b) THEN [st |-> "end", k |-> k, j |-> j, bs |-> IF k = 0 THEN {<<p, 0, i, i, i>>} ELSE bs]
  ELSE IF ~first /\ Tok(j) \notin First(g, p, k) THEN [st |-> "fail", k |-> k, j |-> j, bs |-> bs]
  ELSE IF p.b[k+1] \in NTs(g) THEN [st |-> "call", k |-> k, j |-> j, bs |-> bs]
  ELSE Scan(p, k+1, i, j+1, FALSE, bs \cup {<<p, k+1, i, j, j+1>>})

(* to begin with another grammar and input *)
Load(g0, w0) ==
  LET t == IF w0 = <<>> THEN EOFSym ELSE w0[1]
      A == ProdsOf(g0, g0.start)
      S == {p \in A : t \in First(g0, p, 0)} IN
  /\ g' = g0 /\ w' = w0
  /\ R' = {<<p, 0, 0, 0>> : p \in S} /\ U' = {<<p, 0, 0, 0>> : p \in S}
  /\ crf' = [c \in {<<g0.start, 0>>} |-> {}]
  /\ popped' = {} /\ bsrs' = {}
  /\ errs' = IF S # {} THEN {} ELSE {<<p, 0, 0, UNION {First(g0, q, 0) : q \in A}>> : p \in A}

Init0 ==
  /\ R = Started(g.start, 0) /\ U = R
  /\ crf = [c \in {<<g.start, 0>>} |-> {}]
  /\ popped = {} /\ bsrs = {}
  /\ errs = StartErrs(g.start, 0)

Step(d) ==
  LET p == d[1] i == d[3]
      s == Scan(p, d[2], i, d[4], d[2] = 0, {})
      j == s.j
      rest == R \ {d}
      new(D) == /\ U' = U \cup D /\ R' = rest \cup (D \ U)
  IN /\ UNCHANGED <<g, w>>
     /\ CASE s.st = "fail" ->
               /\ new({}) /\ bsrs' = bsrs \cup s.bs
               /\ errs' = errs \cup {<<p, s.k, j, First(g, p, s.k)>>}
               /\ UNCHANGED <<crf, popped>>
          [] s.st = "call" ->
               LET c == <<p.b[s.k+1], j>> ret == <<p, s.k+1, i>> IN
               IF c \notin DOMAIN crf
               THEN /\ crf' = (c :> {ret}) @@ crf
                    /\ new(Started(c[1], j))
                    /\ errs' = errs \cup StartErrs(c[1], j)
                    /\ bsrs' = bsrs \cup s.bs
                    /\ UNCHANGED popped
               ELSE IF ret \in crf[c]
               THEN /\ new({}) /\ bsrs' = bsrs \cup s.bs /\ UNCHANGED <<crf, popped, errs>>
               ELSE LET H == {q[3] : q \in {q \in popped : q[1] = c[1] /\ q[2] = j}} IN
                    /\ crf' = [crf EXCEPT ![c] = @ \cup {ret}]
                    /\ new({<<p, s.k+1, i, h>> : h \in H})
                    /\ bsrs' = bsrs \cup s.bs \cup {<<p, s.k+1, i, j, h>> : h \in H}
                    /\ UNCHANGED <<popped, errs>>
          [] s.st = "end" ->
               IF Tok(j) \notin Follow(g, p.h)
               THEN /\ new({}) /\ bsrs' = bsrs \cup s.bs
                    /\ errs' = errs \cup {<<p, 0, j, Follow(g, p.h)>>}
                    /\ UNCHANGED <<crf, popped>>
               ELSE IF <<p.h, i, j>> \in popped
               THEN /\ new({}) /\ bsrs' = bsrs \cup s.bs /\ UNCHANGED <<crf, popped, errs>>
               ELSE LET rets == crf[<<p.h, i>>] IN
                    /\ popped' = popped \cup {<<p.h, i, j>>}
                    /\ new({<<r[1], r[2], r[3], j>> : r \in rets})
                    /\ bsrs' = bsrs \cup s.bs \cup {<<r[1], r[2], r[3], i, j>> : r \in rets}
                    /\ UNCHANGED <<crf, errs>>

Next == \E d \in R : Step(d)
Spec == Init0 /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* What it must satisfy                                                    *)
(***************************************************************************)
Stopped == R = {}
E == Ends(g, w)
bh == ByHead(g)

(* the derivations found, in the form CFG.tla uses *)
Found == {<<x[1].h, x[1].a, x[3], x[4], x[5]>> : x \in {x \in bsrs : x[2] = Len(x[1].b)}}
(* complete prefixes parsed as the start symbol count too as errors *)
AllErrs == errs \cup {<<x[1], Len(x[1].b), x[5], {EOFSym}>> : x \in {x \in bsrs : x[1].h = g.start /\ x[2] = Len(x[1].b) /\ x[3] = 0}}
Accepted == \E x \in Found : x[1] = g.start /\ x[3] = 0 /\ x[5] = Len(w)

(* G02: never a derivation that is none *)
Sound == \A x \in bsrs : x[5] \in StrEnds(E, w, x[1].b, x[2], x[3])

(* G01, G03: all those of the input in the end *)
Complete ==
  Stopped => /\ Accepted = (Len(w) \in E[g.start][0])
             /\ Tree(g, w) \subseteq Found

(* the extents of the symbols of an alternate can be found again from the  *)
(* partial ones, as GetNTChildrenI does                                    *)
RECURSIVE Back(_, _, _, _)
Back(p, k, i, r) ==   \* the extents symbol k may have if k symbols end at r
  IF k = 1 THEN {<<i, r>>} ELSE {<<x[4], r>> : x \in {x \in bsrs : x[1] = p /\ x[2] = k /\ x[3] = i /\ x[5] = r}}
RECURSIVE BackExt(_, _, _, _, _)
BackExt(p, k, m, i, r) ==  \* the extents symbol m may have
  IF k = m THEN Back(p, k, i, r)
  ELSE UNION {BackExt(p, k-1, m, i, e[1]) : e \in Back(p, k, i, r)}
Navigable ==
  Stopped /\ Accepted =>
     \A x \in Tree(g, w) :
        LET p == TheProd(bh, x[1], x[2]) k == Len(p.b) IN
        \A m \in 1..(k-1) : BackExt(p, k-1, m, x[3], x[4]) = ChildExtents(E, bh, w, x, m)

(* G05 *)
Errors ==
  (Stopped /\ ~Accepted /\ Reduced(g)) =>
     LET Is == ViableItems(g, w, E) v == ViableOf(Is) IN
     /\ AllErrs # {}
     /\ v = SetMax({e[3] : e \in AllErrs})
     /\ \A e \in AllErrs : e[4] # {} /\ Tok(e[3]) \notin e[4]
     /\ \A e \in AllErrs : e[3] = v => e[4] \cap NextOf(g, E, Is, v) # {}
     /\ \A e \in AllErrs : \E it \in Is : it[1] = e[1] /\ it[3] \in {e[2], Len(e[1].b)} /\ it[4] = e[3]

(* work is bounded by the square of the input, whatever the schedule *)
Bounded == Cardinality(U) <= (Cardinality(UNION {{<<p, k>> : k \in 0..Len(p.b)} : p \in Prods(g)})) * (Len(w)+1) * (Len(w)+1)
Stops == <>Stopped
=============================================================================
