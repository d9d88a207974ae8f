-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* The meaning of a set of lexical rules and string literals, stated       *)
(* declaratively: a rule is a regular expression, a lexer state is the set *)
(* of what may still follow in each rule (partial derivatives), and a      *)
(* token is the longest run of characters along which that set stays       *)
(* non-empty.  Nothing of gogll's item sets or event ordering is used.     *)
(*                                                                         *)
(* A rule is [id, ord, sup, lit, re]; re is a sequence of nodes                 *)
(*   [k |-> "chr", c |-> <<cp>>]      one character                        *)
(*   [k |-> "any", c |-> <<>>]        . any character                      *)
(*   [k |-> "of"|"not", c |-> <<cp, ...>>]                                 *)
(*   [k |-> "cls", v |-> "letter"|"upcase"|"lowcase"|"number"]             *)
(*   [k |-> "set", incl |-> <<names>>, excl |-> <<names>>]                 *)
(*   [k |-> "ref", v |-> id]          an earlier rule, inlined             *)
(*   [k |-> "grp"|"opt"|"star"|"plus", a |-> <<re, ...>>]                  *)
(* A character is [c |-> code point, cls |-> <<class names>>]; the classes *)
(* come from the Unicode database, not from the implementation.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Elems(s) == {s[i] : i \in DOMAIN s}

IsBracket(n) == n.k \in {"grp", "opt", "star", "plus"}

Matches(n, ch) ==
  CASE n.k = "chr" -> ch.c = n.c[1]
    [] n.k = "any" -> TRUE
    [] n.k = "of"  -> ch.c \in Elems(n.c)
    [] n.k = "not" -> ch.c \notin Elems(n.c)
    [] n.k = "cls" -> n.v \in Elems(ch.cls)
    [] n.k = "set" -> /\ Elems(n.incl) \cap Elems(ch.cls) # {}
                      /\ Elems(n.excl) \cap Elems(ch.cls) = {}
    [] OTHER -> FALSE

RuleNamed(rules, id) == CHOOSE r \in Elems(rules) : r.id = id /\ ~r.lit

(* references to earlier rules stand for the body of the rule *)
RECURSIVE Inline(_, _)
Inline(rules, re) ==
  IF re = <<>> THEN <<>>
  ELSE LET h == Head(re) t == Inline(rules, Tail(re)) IN
       IF h.k = "ref" THEN Inline(rules, RuleNamed(rules, h.v).re) \o t
       ELSE IF IsBracket(h) THEN <<[h EXCEPT !.a = [i \in DOMAIN h.a |-> Inline(rules, h.a[i])]]>> \o t
       ELSE <<h>> \o t

(***************************************************************************)
(* A state is a set of <<rule number, what may still follow>>, closed      *)
(* under opening the bracket at the front of what follows.                 *)
(***************************************************************************)
Open(c) ==
  LET h == Head(c)
      rest == Tail(c)
      once == {h.a[i] \o rest : i \in DOMAIN h.a}
      loop == [h EXCEPT !.k = "star"]
      again == {h.a[i] \o <<loop>> \o rest : i \in DOMAIN h.a}
  IN CASE h.k = "grp"  -> once
       [] h.k = "opt"  -> once \cup {rest}
       [] h.k = "star" -> again \cup {rest}
       [] h.k = "plus" -> again

RECURSIVE ClosFix(_, _)
ClosFix(done, new) ==
  IF new = {} THEN done
  ELSE LET br == {x \in new : x[2] # <<>> /\ IsBracket(Head(x[2]))}
           nx == UNION {{<<x[1], c>> : c \in Open(x[2])} : x \in br}
           d1 == done \cup new
       IN ClosFix(d1, TLCEval(nx \ d1))

Base(S) == {x \in S : x[2] = <<>> \/ ~IsBracket(Head(x[2]))}
Closed(I) == TLCEval(Base(ClosFix({}, I)))

Start(rules) == Closed({<<i, Inline(rules, rules[i].re)>> : i \in DOMAIN rules})

Step(S, ch) == Closed({<<x[1], Tail(x[2])>> : x \in {x \in S : x[2] # <<>> /\ Matches(Head(x[2]), ch)}})

(* what a state accepts: a string literal is preferred to a rule, and of   *)
(* several rules the one whose name comes first (ord: rank of the name)    *)
AcceptedRules(rules, S) ==
  LET acc == {x[1] : x \in {x \in S : x[2] = <<>>}}
      lits == {i \in acc : rules[i].lit}
  IN IF lits # {} THEN lits ELSE {i \in acc : \A j \in acc : rules[i].ord <= rules[j].ord}

(***************************************************************************)
(* Scanning one token from position i (0-based): the longest run that      *)
(* stays viable; what it matched, or an error reaching over the character  *)
(* that ended it.  Result [acc, r]: rules matched ({} for an error), end.  *)
(***************************************************************************)
RECURSIVE ScanOn(_, _, _, _)
ScanOn(rules, w, S, r) ==
  LET acc == AcceptedRules(rules, S) IN
  IF r >= Len(w) THEN [acc |-> acc, r |-> r]
  ELSE LET S1 == Step(S, w[r+1]) IN
       IF S1 = {} THEN [acc |-> acc, r |-> IF acc = {} THEN r+1 ELSE r]
       ELSE ScanOn(rules, w, S1, r+1)

Scan(rules, S0, w, i) ==
  LET S1 == Step(S0, w[i+1]) IN
  IF S1 = {} THEN [acc |-> {}, r |-> i+1] ELSE ScanOn(rules, w, S1, i+1)

IsSpace(ch) == "space" \in Elems(ch.cls)

RECURSIVE SkipSpace(_, _)
SkipSpace(w, i) == IF i < Len(w) /\ IsSpace(w[i+1]) THEN SkipSpace(w, i+1) ELSE i

(* the tokens of w, suppressed ones included: << [acc, l, r], ... >> *)
RECURSIVE ScanAll(_, _, _, _)
ScanAll(rules, S0, w, i0) ==
  LET i == SkipSpace(w, i0) IN
  IF i >= Len(w) THEN <<>>
  ELSE LET s == TLCEval(Scan(rules, S0, w, i))
       IN <<[acc |-> s.acc, l |-> i, r |-> s.r]>> \o ScanAll(rules, S0, w, s.r)

Suppressed(rules, t) == t.acc # {} /\ \E i \in t.acc : rules[i].sup
Visible(rules, ts) == SelectSeq(ts, LAMBDA t : ~Suppressed(rules, t))

(***************************************************************************)
(* Markdown: the text inside the fences, everything else blank.  A fence   *)
(* is three consecutive back ticks, found from left to right.              *)
(***************************************************************************)
Tick == 96
NL == 10
TAB == 9
FenceAt(w, i) == i + 3 <= Len(w) /\ w[i+1].c = Tick /\ w[i+2].c = Tick /\ w[i+3].c = Tick

RECURSIVE MdMask(_, _, _)
MdMask(w, i, text) ==   (* TRUE where the character is code *)
  IF i >= Len(w) THEN <<>>
  ELSE IF FenceAt(w, i) THEN <<FALSE, FALSE, FALSE>> \o MdMask(w, i+3, ~text)
  ELSE <<~text>> \o MdMask(w, i+1, text)

Blank == [c |-> 32, cls |-> <<"Pattern_White_Space", "Space", "White_Space", "Z", "Zs", "space">>]
MdText(w) == LET m == MdMask(w, 0, TRUE)
             IN [i \in DOMAIN w |-> IF m[i] THEN w[i] ELSE IF w[i].c \in {NL, TAB} THEN w[i] ELSE Blank]

(***************************************************************************)
(* Positions: lines start after a newline; a tab counts as four columns.   *)
(***************************************************************************)
LineOf(w, i) == 1 + Cardinality({j \in 1..i : w[j].c = NL})
RECURSIVE ColOf(_, _)
ColOf(w, i) == IF i = 0 \/ w[i].c = NL THEN 1
               ELSE ColOf(w, i-1) + (IF w[i].c = 9 THEN 4 ELSE 1)

(***************************************************************************)
(* Escapes: a backslash and the character after it stand for one           *)
(* character: tab, carriage return, newline, or the character itself.      *)
(***************************************************************************)
RECURSIVE Strip(_)
Strip(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF Head(s) = 92 /\ Len(s) > 1
       THEN LET c == s[2] IN
            << CASE c = 116 -> 9 [] c = 114 -> 13 [] c = 110 -> 10 [] OTHER -> c >> \o Strip(SubSeq(s, 3, Len(s)))
       ELSE <<Head(s)>> \o Strip(Tail(s))
=============================================================================
