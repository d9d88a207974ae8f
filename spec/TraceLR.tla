------------------------------- MODULE TraceLR -------------------------------
(***************************************************************************)
(* Trace validation for generated LR(1) parsers.                           *)
(* Lines: k = "gen": the outcome of running gogll on grammar g             *)
(*        k = "lr" : one parse by the generated parser                     *)
(*        k = "long": one parse of a long input                            *)
(*        k = "deep": one parse of a very long input by a GLL parser       *)
(***************************************************************************)
EXTENDS LR1, Json, IOUtils, Integers

TraceFile == IOEnv.VT_TRACE
GramFile == IOEnv.VT_GRAMMARS
Clauses == IOEnv.VT_CLAUSES
Trace == ndJsonDeserialize(TraceFile)
Grams == ndJsonDeserialize(GramFile)

Rng(s) == {s[i] : i \in DOMAIN s}

(* What depends on a grammar alone is computed once, into TLC registers    *)
(* (TLC does not cache definitions that use recursive operators).          *)
Used == {Trace[i].g : i \in DOMAIN Trace}
Resolving == {n \in Used : \E i \in DOMAIN Trace : Trace[i].g = n /\ Trace[i].mode = "resolve" /\ Trace[i].kind = "knuth"}
Conf == TLCGet(1)
Tab == TLCGet(2)

(* what the grammar says of each input is computed once, however many      *)
(* parsers were run on it                                                  *)
W(o) == SubSeq(o.toks, 1, Len(o.toks)-1)
EndsOf(o) ==
  LET c == TLCGet(3) w == W(o) IN
  IF c[1] = o.g /\ c[2] = w THEN c[3]
  ELSE LET E == EndsTab(Grams[o.g], w) IN IF TLCSet(3, <<o.g, w, E>>) THEN E ELSE E

(***************************************************************************)
(* A tree is a derivation tree: TreeSpan gives the number of tokens it     *)
(* covers from position l, or -1 if it is not a derivation tree for s.     *)
(***************************************************************************)
IsNT(g, s) == s \in NTs(g)

RECURSIVE TreeEnd(_, _, _, _, _), KidsEnd(_, _, _, _, _, _)
TreeEnd(g, w, s, t, l) ==
  IF l < 0 THEN 0-1
  ELSE IF ~IsNT(g, s) THEN (IF t[1] = "T" /\ t[2] = l /\ l < Len(w) /\ w[l+1] = s THEN l+1 ELSE 0-1)
  ELSE LET P == {p \in ProdsOf(g, s) : t[1] = p.h \o ToString(p.a) /\ Len(p.b) = Len(t[3])} IN
       IF P = {} THEN 0-1 ELSE KidsEnd(g, w, (CHOOSE p \in P : TRUE).b, t[3], 1, l)
KidsEnd(g, w, b, kids, i, l) ==
  IF l < 0 THEN 0-1
  ELSE IF i > Len(b) THEN l
  ELSE KidsEnd(g, w, b, kids, i+1, TreeEnd(g, w, b[i], kids[i], l))

(* the AST function calls of a bottom-up, left-to-right parse *)
RECURSIVE PostOrder(_), PostKids(_, _)
PostOrder(t) == IF t = <<>> \/ t[1] = "T" THEN <<>> ELSE Append(PostKids(t[3], 1), t[1])
PostKids(ks, i) == IF i > Len(ks) THEN <<>> ELSE PostOrder(ks[i]) \o PostKids(ks, i+1)

Fuel == 400

Result(o) == o.tree

(* the conflicts of the canonical automaton: per state and terminal, the   *)
(* reductions (0: accept) and whether the terminal can also be shifted     *)
StateConflicts(g, I) ==
  LET ts == {it[3] : it \in {it \in I : it[2] = Len(LBody(g, it[1]))}} IN
  {<<t, Shiftable(g, I, t), Reds(g, I, t)>> :
     t \in {t \in ts : Cardinality(Reds(g, I, t)) + (IF Shiftable(g, I, t) THEN 1 ELSE 0) > 1}}
ConflictBag(g, A) ==
  LET all == {<<k, c>> : k \in DOMAIN A, c \in {}} \cup UNION {{<<k, c>> : c \in StateConflicts(g, A[k])} : k \in DOMAIN A}
      kinds == {x[2] : x \in all}
  IN [c \in kinds |-> Cardinality({x \in all : x[2] = c})]

ObsBag(cs) ==
  LET f(i) == <<cs[i][1], cs[i][2], Rng(cs[i][3])>>
      kinds == {f(i) : i \in DOMAIN cs}
  IN [c \in kinds |-> Cardinality({i \in DOMAIN cs : f(i) = c})]

(* one run of gogll: it succeeds and generates a parser if and only if the *)
(* grammar is LR(1) or conflicts are to be resolved; conflicts are written *)
(* whenever there are any, and said to be resolved only if they were       *)
GenOK(o) ==
  LET conf == Conf[o.g] IN
  /\ o.ok = (~conf \/ o.mode = "resolve")
  /\ o.parser = o.ok
  /\ o.conffile = conf
  /\ o.said = (conf /\ o.mode = "resolve")
  /\ conf => Len(o.conflicts) > 0
  /\ (conf /\ o.kind = "knuth") => ObsBag(o.conflicts) = TLCGet(4)[o.g]

LangOK(o) ==
  LET g == Grams[o.g] w == W(o) E == EndsOf(o) inl == Len(w) \in E[g.start][0] IN
  IF o.mode = "plain"
  THEN o.errnil = inl
  ELSE IF o.kind = "knuth"
       THEN LET r == LRParse(g, Tab[o.g], w, Fuel) IN r.st # "loop" => (o.errnil = (r.st = "accept"))
       ELSE o.errnil => inl

TreeOK(o) ==
  LET g == Grams[o.g] w == W(o) IN
  IF o.errnil
  THEN /\ ~o.resnil
       /\ TreeEnd(g, w, g.start, Result(o), 0) = Len(w)
       /\ (o.mode = "plain" \/ o.kind = "knuth") =>
             LET r == LRParse(g, Tab[o.g], w, Fuel) IN r.st = "accept" => r.tree = Result(o)
  ELSE o.resnil

OrderOK(o) ==
  o.errnil => o.reds = PostOrder(Result(o))

(* F: the AST function of the o.fail-th reduction returned an error: it is  *)
(* the last one called, and the caller gets no result and that error       *)
FailOK(o) ==
  LET r == LRParse(Grams[o.g], Tab[o.g], W(o), Fuel) all == PostOrder(r.tree) IN
  (o.mode = "plain" /\ r.st = "accept") =>
     IF o.fail <= Len(all)
     THEN /\ o.reds = SubSeq(all, 1, o.fail)
          /\ ~o.errnil /\ o.resnil /\ o.sentinel
     ELSE o.errnil /\ ~o.resnil /\ o.reds = all

(* F: the AST function of the k-th reduction returned a special value: it   *)
(* reaches the enclosing call, or the caller, as it is                      *)
RECURSIVE CountKids(_, _), CountCalls(_), ReplaceCall(_, _, _), ReplaceKids(_, _, _, _)
CountKids(ks, i) == IF i > Len(ks) THEN 0 ELSE CountCalls(ks[i]) + CountKids(ks, i+1)
CountCalls(t) == IF t[1] = "T" THEN 0 ELSE 1 + CountKids(t[3], 1)
ReplaceCall(t, k, v) ==
  IF t[1] = "T" \/ k < 1 \/ k > CountCalls(t) THEN t
  ELSE IF k = CountCalls(t) THEN <<v, 0-1, <<>>>>
  ELSE <<t[1], t[2], ReplaceKids(t[3], 1, k, v)>>
ReplaceKids(ks, i, k, v) ==
  IF i > Len(ks) THEN <<>>
  ELSE <<ReplaceCall(ks[i], k, v)>> \o ReplaceKids(ks, i+1, k - CountCalls(ks[i]), v)

ValueOK(o) ==
  LET r == LRParse(Grams[o.g], Tab[o.g], W(o), Fuel)
      k == IF o.fail > 200 THEN o.fail - 200 ELSE o.fail - 100
      want == TLCEval(ReplaceCall(r.tree, k, IF o.fail > 200 THEN "E" ELSE "nil")) IN
  (o.mode = "plain" /\ r.st = "accept") =>
     /\ o.errnil
     /\ o.reds = PostOrder(r.tree)
     /\ o.resnil = (want[1] = "nil")
     /\ ~o.resnil => o.tree = want

(* an error is reported at the first token that cannot continue any        *)
(* sentence (canonical and Pager's LR(1) both never shift past it)         *)
ErrOK(o) ==
  LET g == Grams[o.g] w == W(o) E == EndsOf(o) IN
  (~o.errnil /\ o.mode = "plain") =>
     LET Is == ViableItems(g, w, E) v == ViableOf(Is) IN
     /\ o.eline = o.pos[v+1][1] /\ o.ecol = o.pos[v+1][2]
     /\ LET exp == Rng(o.exp) found == IF v = Len(w) THEN EOFSym ELSE w[v+1]
            next == NextOf(g, E, Is, v)
            reds == PostKids(LRParse(g, Tab[o.g], w, Fuel).tree[3], 1) IN
        /\ found \notin exp
        /\ exp \subseteq Terms(g) \cup {EOFSym}
        /\ IsPrefix(reds, o.reds)
        /\ o.kind = "knuth" => o.reds = reds
        /\ o.reds = reds => next \subseteq exp
        /\ o.kind = "knuth" => exp = next

(* Q: exactly what the canonical machine does: the verdict, the reductions *)
(* of a sentence, the token an error is reported at                        *)
CanonOK(o) ==
  LET g == Grams[o.g] w == W(o) r == LRParse(g, Tab[o.g], w, Fuel) IN
  o.mode = "plain" =>
     /\ o.errnil = (r.st = "accept")
     /\ r.st = "accept" => o.reds = PostOrder(r.tree)
     /\ r.st = "error" => /\ o.eline = o.pos[r.pos+1][1] /\ o.ecol = o.pos[r.pos+1][2]
                          /\ IsPrefix(PostKids(r.tree[3], 1), o.reds)

(* long inputs, and those for the entries of the tables (their trees come flat, every node with the number of its    *)
(* children): the grammar is LR(1), so the canonical machine decides the  *)
(* language, the tree, the order of the reductions and where errors are     *)
RECURSIVE Flat(_), FlatKids(_, _)
Flat(t) == << <<t[1], t[2], Len(t[3])>> >> \o FlatKids(t[3], 1)
FlatKids(ks, i) == IF i > Len(ks) THEN <<>> ELSE Flat(ks[i]) \o FlatKids(ks, i+1)

LongOK(c, o) ==
  LET g == Grams[o.g] w == W(o) r == LRParse(g, Tab[o.g], w, 400 + 40 * Len(w)) IN
  \E x \in {TLCEval(r)} :
  IF o.mode = "resolve" THEN (* what the machine does when the conflicts are resolved as documented *)
     (o.kind = "knuth" /\ x.st # "loop") =>
        /\ c = "L" => o.errnil = (x.st = "accept")
        /\ (c = "T" /\ x.st = "accept") => o.flat = Flat(x.tree)
  ELSE
     /\ x.st # "loop"
     /\ c \in {"L", "Q", "E"} => o.errnil = (x.st = "accept")
     /\ (c \in {"T", "Q"} /\ x.st = "accept") => o.flat = Flat(x.tree)
     /\ (c \in {"O", "Q"} /\ x.st = "accept") => o.reds = PostOrder(x.tree)
     /\ (c \in {"Q", "E"} /\ x.st = "error") => o.eline = o.pos[x.pos+1][1] /\ o.ecol = o.pos[x.pos+1][2]

(* deep inputs, read by a generated GLL parser: when the grammar is LR(1), a  *)
(* sentence has exactly one derivation tree, the one the canonical machine *)
(* builds, and the forest must hold just that one                          *)
DeepOK(c, o) ==
  LET g == Grams[o.g] w == W(o) r == LRParse(g, Tab[o.g], w, 400 + 40 * Len(w)) IN
  \E x \in {TLCEval(r)} :
     /\ x.st # "loop"
     /\ o.errnil = (x.st = "accept")
     /\ (c = "D" /\ x.st = "accept") => (o.flat = Flat(x.tree) /\ ~o.amb)
     /\ (c = "M" /\ x.st = "accept") => ~o.amb
     /\ (c = "P" /\ x.st = "error") => o.eline = o.pos[x.pos+1][1] /\ o.ecol = o.pos[x.pos+1][2]

Clause(c, o) ==
  IF o.k = "deep" THEN (c \in {"D", "M", "P", "V"} => DeepOK(c, o)) ELSE
  IF c \in {"D", "M", "P", "V"} THEN TRUE ELSE
  IF o.k = "long" THEN (c \in {"L", "T", "O", "Q", "E"} => LongOK(c, o)) ELSE
  IF o.k = "fail" THEN (c = "F" => FailOK(o)) ELSE
  IF o.k = "value" THEN (c = "F" => ValueOK(o)) ELSE
  CASE c = "F" -> TRUE
    [] c = "G" -> o.k = "gen" => GenOK(o)
    [] c = "L" -> o.k = "lr" => LangOK(o)
    [] c = "T" -> o.k = "lr" => TreeOK(o)
    [] c = "O" -> o.k = "lr" => OrderOK(o)
    [] c = "E" -> o.k = "lr" => ErrOK(o)
    [] c = "Q" -> o.k = "lr" => CanonOK(o)

AllClauses == <<"G", "L", "T", "O", "E", "F", "Q", "D", "M", "P", "V">>
Wanted == {c \in Rng(AllClauses) : \E i \in 1..Len(Clauses) : SubSeq(Clauses, i, i) = c}

(* (a parser that should not have been generated is the matter of its      *)
(* "gen" line alone)                                                       *)
Failing(o) == IF o.k # "gen" /\ o.mode = "plain" /\ Conf[o.g] THEN {} ELSE IF o.panic # "" THEN {"panic"} ELSE {c \in Wanted : ~Clause(c, o)}

(* (TLC evaluates a LET that is itself part of Init or Next at each use:   *)
(* the registers are what makes it compute the automata once.)             *)
Prepare ==
  /\ TLCSet(5, TLCEval([n \in Used |-> LAutomaton(Grams[n])]))
  /\ TLCSet(1, TLCEval([n \in Used |-> HasConflict(Grams[n], TLCGet(5)[n])]))
  /\ TLCSet(2, TLCEval([n \in {n \in Used : ~TLCGet(1)[n]} \cup Resolving |-> LTables(Grams[n], TLCGet(5)[n])]))
  /\ TLCSet(4, TLCEval([n \in {n \in Used : TLCGet(1)[n]} |-> ConflictBag(Grams[n], TLCGet(5)[n])]))
  /\ TLCSet(5, <<>>)
  /\ TLCSet(3, <<0, <<>>, <<>>>>)
VARIABLES i, rejected
Init == Prepare /\ i = 1 /\ rejected = 0
Accept == /\ i <= Len(Trace)
          /\ \E f \in {Failing(Trace[i])} :
             /\ i' = i + 1
             /\ IF f = {} THEN rejected' = rejected
                ELSE /\ PrintT(<<"REJECT", i, f>>)
                     /\ rejected' = rejected + 1
Spec == Init /\ [][Accept]_<<i, rejected>>
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), rejected>>)
=============================================================================
