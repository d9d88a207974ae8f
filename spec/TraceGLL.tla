------------------------------ MODULE TraceGLL ------------------------------
(***************************************************************************)
(* Trace validation for generated GLL parsers.  Every line of the trace is *)
(* one call of the real generated parser followed by the answers its       *)
(* public API gave about the result.  The behaviours of this module are    *)
(* the sequences of calls whose answers CFG.tla allows; a line it does not *)
(* allow is reported with the clause that rejects it.                      *)
(***************************************************************************)
EXTENDS CFG, Json, IOUtils, Integers, SequencesExt

TraceFile == IOEnv.VT_TRACE
GramFile == IOEnv.VT_GRAMMARS
Clauses == IOEnv.VT_CLAUSES          \* which clauses this run decides

Trace == ndJsonDeserialize(TraceFile)
Grams == ndJsonDeserialize(GramFile)

(* per grammar constants *)
Used == {Trace[i].g : i \in DOMAIN Trace}
Prepare ==
  /\ TLCSet(1, TLCEval([i \in Used |-> ByHead(Grams[i])]))
  /\ TLCSet(2, TLCEval([i \in Used |-> FirstTab(Grams[i])]))
  /\ TLCSet(3, TLCEval([i \in Used |-> Nullable(Grams[i])]))
  /\ TLCSet(4, TLCEval([i \in Used |-> Reduced(Grams[i])]))
  /\ TLCSet(5, TLCEval([i \in Used |-> FollowTab(Grams[i])]))
BH == TLCGet(1)
FirstT == TLCGet(2)
NullT == TLCGet(3)
RedT == TLCGet(4)
FollowT == TLCGet(5)

Rng(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Rng(s)) = Len(s)
SeqMax(S, d) == IF S = {} THEN d ELSE SetMax(S)

(***************************************************************************)
(* One observation.  o.g: grammar, w: tokens without EOF.                  *)
(***************************************************************************)
W(o) == SubSeq(o.toks, 1, Len(o.toks) - 1)

Recognised(o, E) ==
  IF Len(W(o)) \in E[Grams[o.g].start][0]
  THEN ~o.setnil /\ o.errsnil /\ Len(o.errs) = 0
  ELSE o.setnil

(* every node the API shows is a derivation, and every derivation is shown *)
NodeSound(o, E) ==
  /\ \A i \in DOMAIN o.all : ValidBSR(E, BH[o.g], W(o), o.all[i])
  /\ \A i \in DOMAIN o.contain :
        o.contain[i][3] \in E[o.contain[i][1]][o.contain[i][2]]
  /\ \A i \in DOMAIN o.nodes :
        LET x == o.nodes[i].b IN
        /\ ValidBSR(E, BH[o.g], W(o), x)
        /\ \A k \in DOMAIN o.nodes[i].kids : LET kd == o.nodes[i].kids[k] IN
             /\ kd.sym = TheProd(BH[o.g], x[1], x[2]).b[k]
             /\ kd.nt = (kd.sym \in DOMAIN BH[o.g])
             /\ kd.nt => Rng(kd.nodes) \subseteq Children(E, BH[o.g], W(o), x, k)
             /\ (~kd.nt /\ kd.tok # -1) =>
                  \E e \in ChildExtents(E, BH[o.g], W(o), x, k) : kd.tok = e[1]

NodeComplete(o, E) ==
  /\ Rng(o.roots) = Roots(E, BH[o.g], W(o), Grams[o.g].start)
  /\ NoDup(o.roots)
  /\ \A i \in DOMAIN o.nodes :
        LET x == o.nodes[i].b IN
        /\ Len(o.nodes[i].kids) = Len(TheProd(BH[o.g], x[1], x[2]).b)
        /\ o.nodes[i].cont
        /\ x \in Rng(o.all)
        /\ \A k \in DOMAIN o.nodes[i].kids : LET kd == o.nodes[i].kids[k] IN
             kd.nt => /\ kd.panic = ""
                      /\ NoDup(kd.nodes)
                      /\ Children(E, BH[o.g], W(o), x, k) \subseteq Rng(kd.nodes)
  /\ NoDup(o.all)
  /\ o.rend = Len(W(o))

AmbiguityOK(o, E) ==
  LET amb == Ambiguous(E, BH[o.g], W(o), Grams[o.g].start) IN
  /\ o.ambpanic = ""
  /\ o.amb = amb
  /\ (o.rootone = "ok") = (Cardinality(Roots(E, BH[o.g], W(o), Grams[o.g].start)) = 1)

(* ReportAmbiguous lists the symbols with a choice below each root, and the *)
(* choices; and says of the roots below which there is none that it is so  *)
ChoicesIn(E, bh, w, F) ==
  {<<y[1], y[2], Children(E, bh, w, y[1], y[2])>> :
     y \in {y \in UNION {{<<x, k>> : k \in NTPos(bh, x)} : x \in F} : Cardinality(Children(E, bh, w, y[1], y[2])) # 1}}
ReportOK(o, E) ==
  LET bh == BH[o.g] w == W(o) R == Roots(E, bh, w, Grams[o.g].start) r == o.rep IN
  /\ r.panic = ""
  /\ r.roots = Cardinality(R)
  /\ {<<r.amb[i][1], r.amb[i][2], Rng(r.amb[i][3])>> : i \in DOMAIN r.amb} =
        ChoicesIn(E, bh, w, ForestFix(E, bh, w, {}, R))
  /\ r.none = Cardinality({x \in R : ChoicesIn(E, bh, w, ForestFix(E, bh, w, {}, {x})) = {}})

(* accessors agree with each other; a terminal child is found whenever its *)
(* position is determined                                                  *)
AccessorsOK(o, E) ==
  \A i \in DOMAIN o.nodes :
     LET x == o.nodes[i].b
         kids == o.nodes[i].kids IN
     \A k \in DOMAIN kids : LET kd == kids[k] IN
        /\ Len(kd.dis) = 0
        /\ (~kd.nt /\ \A j \in 1..(k-1) : kids[j].nt => Len(kids[j].nodes) = 1)
             => /\ kd.panic = ""
                /\ \E e \in ChildExtents(E, BH[o.g], W(o), x, k) : kd.tok = e[1]

(* an error names a slot the parser can be at, and lists all with which    *)
(* that slot, or any other alternate at its start, can go on.  (After a    *)
(* whole alternate the slot given is the start or the end of the alternate,*)
(* and what can go on is what follows the head.)                           *)
SlotErrorOK(o, e, Is) ==
  LET g == Grams[o.g] bh == BH[o.g]
      F == FirstT[o.g] N == NullT[o.g] L == FollowT[o.g] IN
  e.slot[1] \in DOMAIN bh /\ e.slot[2] \in 0..(Cardinality(bh[e.slot[1]])-1) /\
  LET p == TheProd(bh, e.slot[1], e.slot[2])
      k == e.slot[3] exp == Rng(e.exp)
      P == IF k = 0 THEN bh[p.h] ELSE {p} IN
  /\ k \in 0..Len(p.b)
  /\ \/ /\ \E it \in Is : it[1] = p /\ it[3] = k /\ it[4] = e.tok
        /\ UNION {StrFirst(F, N, SubSeq(q.b, k+1, Len(q.b))) : q \in P} \subseteq exp
        /\ exp \subseteq UNION {SlotFirst(F, N, L, q, k) : q \in P}
     \/ /\ k \in {0, Len(p.b)}
        /\ \E it \in Is : it[1] = p /\ it[3] = Len(p.b) /\ it[4] = e.tok
        /\ exp = L[p.h] \/ (exp = {EOFSym} /\ p.h = g.start)

ErrorsOK(o, E) ==
  LET g == Grams[o.g]
      w == W(o)
      inl == Len(w) \in E[g.start][0]
      Is == ViableItems(g, w, E)
      v == ViableOf(Is)
      nx == NextOf(g, E, Is, v)
  IN IF inl THEN o.errsnil
     ELSE /\ Len(o.errs) > 0
          /\ \A i \in DOMAIN o.errs : LET e == o.errs[i] IN
               /\ ~e.nil
               /\ e.tok \in 0..Len(w)
               /\ e.line = o.pos[e.tok+1][1] /\ e.col = o.pos[e.tok+1][2]
               /\ e.expok /\ e.strok
               /\ (RedT[o.g] /\ e.tok = v) => Rng(e.exp) \cap nx # {}
               /\ Len(e.exp) > 0
               /\ o.toks[e.tok+1] \notin Rng(e.exp)
               /\ Rng(e.exp) \subseteq Terms(g) \cup {EOFSym}
               /\ SlotErrorOK(o, e, Is)
          /\ \A i \in 1..(Len(o.errs)-1) : o.errs[i].tok >= o.errs[i+1].tok
          /\ RedT[o.g] => o.errs[1].tok = v

(***************************************************************************)
(* SPPF: nodes and edges are exactly those of the forest of the input      *)
(***************************************************************************)
SymNodes(E, bh, w, F) ==
  UNION {LET b == TheProd(bh, x[1], x[2]).b IN
         {<<x[1], x[3], x[5]>>}
         \cup (IF b = <<>> THEN {<<"<empty>", x[3], x[3]>>}
               ELSE UNION {{<<b[i], e[1], e[2]>> : e \in ChildExtents(E, bh, w, x, i)} : i \in DOMAIN b})
         : x \in F}

(* packed nodes below BSR x: for each prefix length j >= 1 (all of b, or   *)
(* a proper prefix of length >= 2), << X, b, j, l, pivot, r >>             *)
PNsOf(E, bh, w, x) ==
  LET b == TheProd(bh, x[1], x[2]).b
      k == Len(b) IN
  IF k = 0 THEN {<<x[1], b, 0, x[3], x[3], x[3]>>}
  ELSE {<<x[1], b, k, x[3], x[4], x[5]>>}
       \cup UNION {{<<x[1], b, j, x[3], e[1], e[2]>> : e \in ChildExtents(E, bh, w, x, j)} : j \in 2..(k-1)}

INsOf(E, bh, w, x) ==
  LET b == TheProd(bh, x[1], x[2]).b
      k == Len(b) IN
  UNION {{<<x[1], b, j, x[3], e[2]>> : e \in ChildExtents(E, bh, w, x, j)} : j \in 2..(k-1)}

SppfOK(o, E) ==
  LET bh == BH[o.g] w == W(o) s == o.sppf
      F == Forest(E, bh, w, Grams[o.g].start)
      PN == UNION {PNsOf(E, bh, w, x) : x \in F}
      IN_ == UNION {INsOf(E, bh, w, x) : x \in F}
  IN /\ s.panic = ""
     /\ ~s.dup
     /\ s.dotok
     /\ s.root = <<Grams[o.g].start, 0, Len(w)>>
     /\ Rng(s.sns) = SymNodes(E, bh, w, F)
     /\ Rng(s.pns) = PN
     /\ Rng(s.ins) = IN_
     /\ Rng(s.se) = {<<<<p[1], p[4], p[6]>>, p>> : p \in {p \in PN : p[3] = Len(p[2])}}
     /\ Rng(s.ie) = {<<<<p[1], p[2], p[3], p[4], p[6]>>, p>> : p \in {p \in PN : p[3] < Len(p[2])}}
     /\ Rng(s.pr) = {<<p, IF p[2] = <<>> THEN <<"<empty>", p[4], p[4]>> ELSE <<p[2][p[3]], p[5], p[6]>> >> : p \in PN}
     /\ Rng(s.pl) = {<<p, "SN", <<p[2][1], p[4], p[5]>>>> : p \in {p \in PN : p[3] = 2}}
                    \cup {<<p, "IN", <<p[1], p[2], p[3]-1, p[4], p[5]>>>> : p \in {p \in PN : p[3] > 2}}

Clause(c, o, E) ==
  CASE c = "R" -> Recognised(o, E)
    [] c = "S" -> (~o.setnil) => NodeSound(o, E)
    [] c = "C" -> (~o.setnil) => NodeComplete(o, E)
    [] c = "A" -> (~o.setnil) => AmbiguityOK(o, E) /\ ReportOK(o, E)
    [] c = "X" -> (~o.setnil) => o.strbad = <<>> /\ ((o.rootone = "ok") = (Len(o.roots) = 1)) /\ AccessorsOK(o, E)
    [] c = "E" -> ErrorsOK(o, E)
    [] c = "P" -> (~o.setnil) => SppfOK(o, E)
    [] c = "D" -> o.again = ""

AllClauses == <<"R", "S", "C", "A", "X", "E", "P", "D">>
Wanted == {c \in Rng(AllClauses) : \E i \in 1..Len(Clauses) : SubSeq(Clauses, i, i) = c}

(* clauses presuppose a parse that returned, of an input that is a sentence or not *)
Failing(o) ==
  IF o.panic # "" THEN {"panic"}
  ELSE LET E == EndsTab(Grams[o.g], W(o))
       IN {c \in Wanted : ~Clause(c, o, E)}

VARIABLES i, rejected

Init == Prepare /\ i = 1 /\ rejected = 0

Accept == /\ i <= Len(Trace)
          /\ \E f \in {Failing(Trace[i])} :
             /\ i' = i + 1
             /\ IF f = {} THEN rejected' = rejected
                ELSE /\ PrintT(<<"REJECT", i, f>>)
                     /\ rejected' = rejected + 1
Next == Accept
Spec == Init /\ [][Next]_<<i, rejected>>

Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), rejected>>)
=============================================================================
