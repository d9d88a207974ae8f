------------------------------ MODULE TraceTypes ------------------------------
(***************************************************************************)
(* Token types.  Lines:                                                    *)
(*   k = "types": the tables of a generated token package, what the        *)
(*      methods of Type and Token answer for each type, and (GLL) the      *)
(*      symbols of the parser                                              *)
(*   k = "one": the text w, parsed: the types of its tokens, and the       *)
(*      alternates of the start symbol the parser recognised               *)
(* Grams[g]: rules (see Lexer), prods, start.                              *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils

TraceFile == IOEnv.VT_TRACE
GramFile == IOEnv.VT_GRAMMARS
Trace == ndJsonDeserialize(TraceFile)
Grams == ndJsonDeserialize(GramFile)
Used == {Trace[i].g : i \in DOMAIN Trace}
Prepare == TLCSet(1, [n \in Used |-> TLCEval(Start(Grams[n].rules))])

Injective(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Heads(g) == {g.prods[i].h : i \in DOMAIN g.prods}
IDsOf(g) == {g.rules[i].id : i \in DOMAIN g.rules}

(* one type for each terminal, the error and the end of input *)
Complete(g, o) ==
  /\ Len(o.ids) = Cardinality(IDsOf(g)) + 2
  /\ Elems(o.ids) = IDsOf(g) \cup {"Error", "$"}
  /\ o.ids[o.err + 1] = "Error" /\ o.ids[o.eof + 1] = "$"

(* types, names and identifiers correspond one to one *)
Bijection(o) ==
  /\ Len(o.names) = Len(o.ids) /\ Injective(o.names) /\ Injective(o.ids)
  /\ Elems(o.s2t) = {<<o.names[i], i-1>> : i \in DOMAIN o.names}
  /\ Elems(o.i2t) = {<<o.ids[i], i-1>> : i \in DOMAIN o.ids}

Methods(o) ==
  /\ o.str = o.names /\ o.id = o.ids /\ o.tid = o.ids /\ o.tsup = o.sup
  /\ o.ttyp = [i \in DOMAIN o.names |-> i-1]

Suppression(g, o) ==
  /\ Len(o.sup) = Len(o.ids)
  /\ \A i \in DOMAIN o.ids : o.sup[i] = (\E k \in DOMAIN g.rules : g.rules[k].id = o.ids[i] /\ g.rules[k].sup)

(* the parser's symbols are those of the grammar (GLL) *)
SymbolsOK(g, o) ==
  o.kind = "gll" =>
    /\ Injective(o.symt) /\ Elems(o.symt) = IDsOf(g)
    /\ Injective(o.symnt) /\ Elems(o.symnt) = Heads(g)
    /\ \A i \in DOMAIN o.symnt : o.isnt[i] /\ o.tont[i] = i-1
    /\ \A i \in DOMAIN o.symt : ~o.tisnt[i]

(* The slots: one label for each position of each alternate, the alternates *)
(* of a rule in the order of the grammar; what a label says of itself (GLL) *)
RECURSIVE Spell(_, _, _)
Spell(b, k, dot) ==
  IF k > Len(b) THEN (IF dot = Len(b) THEN "∙" ELSE "")
  ELSE (IF k = dot + 1 THEN "∙" ELSE "") \o b[k] \o " " \o Spell(b, k+1, dot)
SlotOf(p, k) == [h |-> p.h, a |-> p.a, p |-> k, b |-> p.b, eor |-> k = Len(p.b), str |-> p.h \o " : " \o Spell(p.b, 1, k)]
SlotsOK(g, o) ==
  o.kind = "gll" =>
    LET at == [i \in DOMAIN o.slots |-> <<o.slots[i].h, o.slots[i].a, o.slots[i].p>>]
        said == [i \in DOMAIN o.slots |-> [h |-> o.slots[i].h, a |-> o.slots[i].a, p |-> o.slots[i].p, b |-> o.slots[i].b,
                                           eor |-> o.slots[i].eor, str |-> o.slots[i].str]]
    IN /\ Injective(at) /\ Injective([i \in DOMAIN o.slots |-> o.slots[i].l])
       /\ Elems(said) = UNION {{SlotOf(g.prods[i], k) : k \in 0..Len(g.prods[i].b)} : i \in DOMAIN g.prods}
       /\ \A i, j \in DOMAIN o.slots : i < j /\ o.slots[i].h = o.slots[j].h => o.slots[i].a <= o.slots[j].a

(* the alternates of the start symbol that derive the one token t *)
AltsOf(g, t) ==
  {g.prods[i].a : i \in {i \in DOMAIN g.prods : /\ g.prods[i].h = g.start
       /\ \/ g.prods[i].b = <<t>>
          \/ \E k \in DOMAIN g.prods : g.prods[i].b = <<g.prods[k].h>> /\ g.prods[k].b = <<t>>}}

OneOK(g, n, o) ==
  LET exp == Visible(g.rules, ScanAll(g.rules, TLCGet(1)[n], o.w, 0)) IN
  Len(exp) = 1 /\ exp[1].acc # {} =>
    LET id == g.rules[CHOOSE i \in exp[1].acc : TRUE].id
    IN /\ o.toks = <<id, "$">>
       /\ Elems(o.alts) = AltsOf(g, id)

Failing(o) ==
  LET g == Grams[o.g] IN
  IF o.panic # "" THEN {"panic"}
  ELSE IF o.k = "one" THEN (IF OneOK(g, o.g, o) THEN {} ELSE {"parse"})
  ELSE {c \in {"complete", "bijection", "methods", "suppression", "symbols", "slots"} :
          ~(CASE c = "complete" -> Complete(g, o)
              [] c = "bijection" -> Bijection(o)
              [] c = "methods" -> Methods(o)
              [] c = "suppression" -> Suppression(g, o)
              [] c = "symbols" -> SymbolsOK(g, o)
              [] c = "slots" -> SlotsOK(g, o))}

VARIABLES i, rejected
Init == Prepare /\ i = 1 /\ rejected = 0
Accept == /\ i <= Len(Trace)
          /\ \E f \in {Failing(Trace[i])} :
             /\ i' = i + 1
             /\ IF f = {} THEN rejected' = rejected
                ELSE /\ PrintT(<<"REJECT", i, f>>)
                     /\ rejected' = rejected + 1
Spec == Init /\ [][Accept]_<<i, rejected>>
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), rejected>>)
===============================================================================
