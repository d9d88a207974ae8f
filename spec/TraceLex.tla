------------------------------ MODULE TraceLex ------------------------------
(***************************************************************************)
(* Trace validation for generated lexers.  Lines:                          *)
(*   k = "lex":  the tokens of one input; w = the input's characters with  *)
(*               their classes; md = it was read from a markdown file      *)
(*   k = "strip": one token text and its unescaped form                    *)
(* Grams[g].rules: the rules and literals of the grammar.                  *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils

TraceFile == IOEnv.VT_TRACE
GramFile == IOEnv.VT_GRAMMARS
Clauses == IOEnv.VT_CLAUSES
Trace == ndJsonDeserialize(TraceFile)
Grams == ndJsonDeserialize(GramFile)

Used == {Trace[i].g : i \in DOMAIN Trace}
Prepare == TLCSet(1, [n \in Used |-> TLCEval(Start(Grams[n].rules))])
S0(g) == TLCGet(1)[g]

Text(o) == IF o.md THEN MdText(o.w) ELSE o.w
Codes(w) == [i \in DOMAIN w |-> w[i].c]

IDs(rules, t) == IF t.acc = {} THEN {"Error"} ELSE {rules[i].id : i \in t.acc}

Toks(o) == SubSeq(o.toks, 1, Len(o.toks) - 1)   \* all but the end of input

(* T: the tokens are those the rules describe *)
TokensOK(o) ==
  LET rules == Grams[o.g].rules
      exp == Visible(rules, ScanAll(rules, S0(o.g), Text(o), 0))
      got == Toks(o)
  IN /\ Len(o.toks) >= 1
     /\ Len(exp) = Len(got)
     /\ \A i \in DOMAIN exp : /\ got[i].l = exp[i].l /\ got[i].r = exp[i].r
                              /\ got[i].id \in IDs(rules, exp[i])

(* P: the tokens, the white space and the suppressed text between them     *)
(* make up the input                                                       *)
GapOK(o, t, a, b) ==
  LET rules == Grams[o.g].rules IN
  IF \A i \in DOMAIN rules : ~rules[i].sup
  THEN \A j \in a+1..b : IsSpace(t[j])
  ELSE TRUE

PartitionOK(o) ==
  LET n == Len(o.w) ts == o.toks got == Toks(o) t == TLCEval(Text(o)) IN
  /\ Len(ts) >= 1
  /\ ts[Len(ts)].eof /\ ts[Len(ts)].l = n /\ ts[Len(ts)].r = n /\ ts[Len(ts)].lit = <<>>
  /\ \A i \in DOMAIN got :
       /\ ~got[i].eof
       /\ got[i].l < got[i].r /\ got[i].r <= n
       /\ got[i].l >= (IF i = 1 THEN 0 ELSE got[i-1].r)
       /\ GapOK(o, t, IF i = 1 THEN 0 ELSE got[i-1].r, got[i].l)
       /\ got[i].lit = SubSeq(Codes(t), got[i].l + 1, got[i].r)
       /\ ~got[i].sup
       /\ ~IsSpace(t[got[i].l + 1])
  /\ GapOK(o, t, IF got = <<>> THEN 0 ELSE got[Len(got)].r, n)
  /\ \A i \in DOMAIN ts : ts[i].bad = ""
  /\ o.gsbad = ""

(* N: line and column *)
PositionsOK(o) ==
  /\ \A i \in DOMAIN o.toks :
       LET t == o.toks[i] IN
       /\ t.l \in 0..Len(o.w)
       /\ LET l == LineOf(o.w, t.l) c == ColOf(o.w, t.l) IN
          t.line = l /\ t.col = c /\ t.lline = l /\ t.lcol = c
  /\ Len(o.lc) <= Len(o.w) + 1
  /\ \A j \in DOMAIN o.lc : o.lc[j] = <<LineOf(o.w, j-1), ColOf(o.w, j-1)>>

(* E: unescaping *)
StripOK(o) == \A i \in DOMAIN o.toks : o.toks[i].stripbad = "" /\ o.toks[i].strip = Strip(o.toks[i].lit)

(* X: the type tables *)
TypesOK(o) == \A i \in DOMAIN o.toks : o.toks[i].bad = ""

Clause(c, o) ==
  CASE c = "T" -> TokensOK(o)
    [] c = "P" -> PartitionOK(o)
    [] c = "N" -> PositionsOK(o)
    [] c = "E" -> StripOK(o)
    [] c = "X" -> TypesOK(o)

AllClauses == {"T", "P", "N", "E", "X"}
Wanted == {c \in AllClauses : \E i \in 1..Len(Clauses) : SubSeq(Clauses, i, i) = c}
Failing(o) == IF o.panic # "" THEN {"panic"} ELSE {c \in Wanted : ~Clause(c, o)}

VARIABLES i, rejected
Init == Prepare /\ i = 1 /\ rejected = 0
Accept == /\ i <= Len(Trace)
          /\ \E f \in {Failing(Trace[i])} :
             /\ i' = i + 1
             /\ IF f = {} THEN rejected' = rejected
                ELSE /\ PrintT(<<"REJECT", i, f>>)
                     /\ rejected' = rejected + 1
Spec == Init /\ [][Accept]_<<i, rejected>>
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), rejected>>)
=============================================================================
