-------------------------------- MODULE Source --------------------------------
(***************************************************************************)
(* The source language of gogll: which token sequences are a grammar, what *)
(* is wrong with those that are not, and the context-free grammar a source *)
(* denotes.  A source is a sequence of tokens                              *)
(*     [k |-> kind, v |-> text, l |-> line, c |-> column]                  *)
(* ending with the end of the text (kind EOFSym).                          *)
(***************************************************************************)
EXTENDS LR1

Punct == {":", ";", "|", "!", ".", "(", ")", "[", "]", "{", "}", "<", ">", "'[", "]'", "-"}

P(h, a, b) == [h |-> h, a |-> a, b |-> b]

(* gogll.md; kinds of terminals: the punctuation, package any not empty,   *)
(* str (string_lit), chr (char_lit), tokid, nt, cls (letter upcase lowcase *)
(* number), uni (\p{...}), error (anything the lexer does not know)        *)
Meta == [start |-> "GoGLL", prods |-> <<
  P("GoGLL", 0, <<"Package", "Rules">>),
  P("Package", 0, <<"package", "str">>),
  P("Rules", 0, <<"Rule">>), P("Rules", 1, <<"Rule", "Rules">>),
  P("Rule", 0, <<"LexRule">>), P("Rule", 1, <<"SyntaxRule">>),
  P("LexRule", 0, <<"tokid", ":", "RegExp", ";">>),
  P("LexRule", 1, <<"!", "tokid", ":", "RegExp", ";">>),
  P("RegExp", 0, <<"LexSymbol">>), P("RegExp", 1, <<"tokid">>),
  P("RegExp", 2, <<"LexSymbol", "RegExp">>), P("RegExp", 3, <<"tokid", "RegExp">>),
  P("LexSymbol", 0, <<".">>), P("LexSymbol", 1, <<"any", "str">>), P("LexSymbol", 2, <<"chr">>),
  P("LexSymbol", 3, <<"Bracket">>), P("LexSymbol", 4, <<"not", "str">>), P("LexSymbol", 5, <<"cls">>),
  P("LexSymbol", 6, <<"USet">>),
  P("Bracket", 0, <<"(", "Alts", ")">>), P("Bracket", 1, <<"[", "Alts", "]">>),
  P("Bracket", 2, <<"{", "Alts", "}">>), P("Bracket", 3, <<"<", "Alts", ">">>),
  P("Alts", 0, <<"RegExp">>), P("Alts", 1, <<"RegExp", "|", "Alts">>),
  P("USet", 0, <<"'[", "uni", "Specs", "]'">>),
  P("Specs", 0, <<>>), P("Specs", 1, <<"Spec", "Specs">>),
  P("Spec", 0, <<"uni">>), P("Spec", 1, <<"-", "uni">>),
  P("SyntaxRule", 0, <<"nt", ":", "SAlts", ";">>),
  P("SAlts", 0, <<"SAlt">>), P("SAlts", 1, <<"SAlt", "|", "SAlts">>),
  P("SAlt", 0, <<"SSyms">>), P("SAlt", 1, <<"empty">>),
  P("SSyms", 0, <<"SSym">>), P("SSyms", 1, <<"SSym", "SSyms">>),
  P("SSym", 0, <<"nt">>), P("SSym", 1, <<"tokid">>), P("SSym", 2, <<"str">>) >>]

MetaTables == LTables(Meta, LAutomaton(Meta))

(* number of the first token no grammar can have there; 0 if there is none *)
SyntaxErrorAt(T, ts) ==
  LET w == [i \in 1..(Len(ts)-1) |-> ts[i].k]
      r == LRParse(Meta, T, w, 60 * Len(ts) + 100)
  IN IF r.st = "accept" THEN 0 ELSE r.pos + 1

(***************************************************************************)
(* The rules of a syntactically correct source: <<first, last>> of each    *)
(***************************************************************************)
Semis(ts) == {i \in DOMAIN ts : ts[i].k = ";"}
RuleEnds(ts) == SetToSortSeq(Semis(ts), <)
RuleSpans(ts) == LET e == RuleEnds(ts) IN [n \in DOMAIN e |-> <<IF n = 1 THEN 3 ELSE e[n-1]+1, e[n]>>]
HeadAt(ts, s) == IF ts[s[1]].k = "!" THEN s[1]+1 ELSE s[1]
IsLex(ts, s) == ts[HeadAt(ts, s)].k = "tokid"
BodyIdx(ts, s) == (HeadAt(ts, s)+2)..(s[2]-1)

(* static rules; the numbers of the offending tokens *)
Duplicates(ts, R) ==
  {HeadAt(ts, R[n]) : n \in {n \in DOMAIN R : \E m \in 1..(n-1) : ts[HeadAt(ts, R[m])].v = ts[HeadAt(ts, R[n])].v}}
NotYetDefined(ts, R) ==
  UNION {{i \in BodyIdx(ts, R[n]) : ts[i].k = "tokid" /\ ~\E m \in 1..(n-1) : ts[HeadAt(ts, R[m])].v = ts[i].v} :
         n \in {n \in DOMAIN R : IsLex(ts, R[n])}}
Undeclared(ts, R) ==
  LET heads == {ts[HeadAt(ts, R[n])].v : n \in DOMAIN R} IN
  UNION {{i \in BodyIdx(ts, R[n]) : ts[i].k \in {"nt", "tokid"} /\ ts[i].v \notin heads} :
         n \in {n \in DOMAIN R : ~IsLex(ts, R[n])}}
(* a token that is a literal of the parser and has white space: field ws *)
SpacedLiterals(ts, R) ==
  UNION {{i \in BodyIdx(ts, R[n]) : ts[i].k = "str" /\ ts[i].ws} : n \in {n \in DOMAIN R : ~IsLex(ts, R[n])}}

Offences(T, ts) ==
  LET e == SyntaxErrorAt(T, ts) IN
  IF e # 0 THEN {e}
  ELSE LET R == RuleSpans(ts) IN
       Duplicates(ts, R) \cup NotYetDefined(ts, R) \cup Undeclared(ts, R) \cup SpacedLiterals(ts, R)

(***************************************************************************)
(* The grammar of a well-formed source.                                    *)
(***************************************************************************)
RECURSIVE SplitAlts(_, _, _, _)
SplitAlts(ts, i, last, cur) ==     \* bodies of tokens i..last, separated by |
  IF i > last THEN <<cur>>
  ELSE IF ts[i].k = "|" THEN <<cur>> \o SplitAlts(ts, i+1, last, <<>>)
  ELSE SplitAlts(ts, i+1, last, IF ts[i].k = "empty" THEN cur ELSE Append(cur, ts[i].v))

RECURSIVE ProdsFrom(_, _, _)
ProdsFrom(ts, R, n) ==
  IF n > Len(R) THEN <<>>
  ELSE IF IsLex(ts, R[n]) THEN ProdsFrom(ts, R, n+1)
  ELSE LET h == ts[R[n][1]].v
           as == SplitAlts(ts, R[n][1]+2, R[n][2]-1, <<>>)
       IN [a \in DOMAIN as |-> P(h, a-1, as[a])] \o ProdsFrom(ts, R, n+1)

SourceGrammar(ts) ==
  LET ps == ProdsFrom(ts, RuleSpans(ts), 1) IN
  [start |-> IF ps = <<>> THEN "" ELSE ps[1].h, prods |-> ps]

(* a rule nothing can ever follow is never called *)
NeverCalled(g) == LET F == FollowTab(g) IN {h \in NTs(g) : F[h] = {}}
=============================================================================
