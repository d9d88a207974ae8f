--------------------------------- MODULE LR1 ---------------------------------
(***************************************************************************)
(* Canonical LR(1) (Knuth 1965): item sets, transitions, conflicts, and    *)
(* the shift/reduce machine.  An item is <<i, d, t>>: production i (0 is   *)
(* the augmenting S' -> S), dot position d, lookahead t.                   *)
(***************************************************************************)
EXTENDS CFG, SequencesExt


LBody(g, i) == IF i = 0 THEN <<g.start>> ELSE g.prods[i].b

RECURSIVE LClosFix(_, _, _, _, _, _)
LClosFix(g, nts, F, N, done, new) ==
  IF new = {} THEN done
  ELSE LET d1 == done \cup new
           nx == UNION {LET b == LBody(g, it[1]) IN
                        IF it[2] < Len(b) /\ b[it[2]+1] \in nts
                        THEN LET beta == SubSeq(b, it[2]+2, Len(b))
                                 la == StrFirst(F, N, beta) \cup (IF StrNullable(N, beta) THEN {it[3]} ELSE {})
                             IN {<<j, 0, t>> : j \in {j \in DOMAIN g.prods : g.prods[j].h = b[it[2]+1]}, t \in la}
                        ELSE {} : it \in new}
       IN LClosFix(g, nts, F, N, d1, TLCEval(nx \ d1))

LClosure(g, F, N, I) == LClosFix(g, NTs(g), F, N, {}, I)

LKernelOn(g, I, X) ==
  {<<it[1], it[2]+1, it[3]>> : it \in {it \in I : LET b == LBody(g, it[1]) IN it[2] < Len(b) /\ b[it[2]+1] = X}}

LExpected(g, I) == {LBody(g, it[1])[it[2]+1] : it \in {it \in I : it[2] < Len(LBody(g, it[1]))}}

(* states are identified with their kernels; result: kernel -> closed set *)
RECURSIVE LAutFix(_, _, _, _, _)
LAutFix(g, F, N, A, new) ==
  IF new = {} THEN A
  ELSE LET A1 == TLCEval(A @@ [k \in new |-> LClosure(g, F, N, k)])
           nx == UNION {{LKernelOn(g, A1[k], X) : X \in LExpected(g, A1[k])} : k \in new}
       IN LAutFix(g, F, N, A1, TLCEval(nx \ DOMAIN A1))

LInit == {<<0, 0, EOFSym>>}
LAutomaton(g) == LAutFix(g, FirstTab(g), Nullable(g), [k \in {} |-> {}], {LInit})

Reds(g, I, t) == {it[1] : it \in {it \in I : it[2] = Len(LBody(g, it[1])) /\ it[3] = t}}
Shiftable(g, I, t) == t \in LExpected(g, I)

Conflicted(g, I) ==
  \E t \in {it[3] : it \in {it \in I : it[2] = Len(LBody(g, it[1]))}} :
     \/ Cardinality(Reds(g, I, t)) > 1
     \/ Shiftable(g, I, t)

HasConflict(g, A) == \E k \in DOMAIN A : Conflicted(g, A[k])
AcceptConflict(g, A) == \E k \in DOMAIN A :
    LET r == Reds(g, A[k], EOFSym) IN 0 \in r /\ Cardinality(r) > 1

(***************************************************************************)
(* The machine.  Conflicts are settled as documented: shift before reduce, *)
(* the earliest production among reductions; accepting beats reducing.     *)
(***************************************************************************)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Action(g, A, k, t) ==
  LET I == A[k] IN
  IF Shiftable(g, I, t) THEN <<"shift", LKernelOn(g, I, t)>>
  ELSE LET r == Reds(g, I, t) IN
       IF r = {} THEN <<"error", {}>>
       ELSE IF MinOf(r) = 0 THEN <<"accept", {}>> ELSE <<"reduce", MinOf(r)>>

(* the tables of the machine, with numbered states; state 1 is initial *)
LTables(g, A) ==
  LET ks == TLCEval(<<LInit>> \o SetToSeq(DOMAIN A \ {LInit}))
      num == TLCEval([k \in DOMAIN A |-> CHOOSE n \in DOMAIN ks : ks[n] = k])
      row(n) == LET act == [t \in Terms(g) \cup {EOFSym} |-> Action(g, A, ks[n], t)] IN
                [t \in DOMAIN act |-> IF act[t][1] = "shift" THEN <<"shift", num[act[t][2]]>> ELSE act[t]]
      goto(n) == LET X == LExpected(g, A[ks[n]]) \cap NTs(g) IN
                 [x \in X |-> num[LKernelOn(g, A[ks[n]], x)]]
  IN TLCEval([n \in DOMAIN ks |-> [act |-> row(n), goto |-> goto(n)]])

(* stack: sequence of << state, tree >>; tree: <<fn, tokenIndex, kids>> *)
(* returns [st, pos, tree]; fuel bounds the number of steps             *)
RECURSIVE LRun(_, _, _, _, _, _)
LRun(g, T, w, i, st, fuel) ==
  IF fuel = 0 THEN [st |-> "loop", pos |-> i, tree |-> <<>>]
  ELSE
  LET t == IF i < Len(w) THEN w[i+1] ELSE EOFSym
      top == st[Len(st)]
      row == T[top[1]].act
      act == IF t \in DOMAIN row THEN row[t] ELSE <<"error", {}>>
  IN CASE act[1] = "error" -> [st |-> "error", pos |-> i, tree |-> <<"err", 0-1, [j \in DOMAIN st |-> st[j][2]]>>]
       [] act[1] = "accept" -> [st |-> "accept", pos |-> i, tree |-> top[2]]
       [] act[1] = "shift" -> LRun(g, T, w, i+1, TLCEval(Append(st, <<act[2], <<"T", i, <<>>>>>>)), fuel-1)
       [] OTHER ->
            LET p == g.prods[act[2]]
                n == Len(p.b)
                base == SubSeq(st, 1, Len(st)-n)
                kids == TLCEval([j \in 1..n |-> st[Len(st)-n+j][2]])
                tree == <<p.h \o ToString(p.a), 0-1, kids>>
            IN LRun(g, T, w, i, TLCEval(Append(base, <<T[base[Len(base)][1]].goto[p.h], tree>>)), fuel-1)

LRParse(g, T, w, fuel) == LRun(g, T, w, 0, << <<1, <<>>>> >>, fuel)
=============================================================================
