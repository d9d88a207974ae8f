------------------------------- MODULE ToolRules -------------------------------
(***************************************************************************)
(* What a run of gogll does to a file system: which files it may create,   *)
(* change or remove, given what the source is and the options, and of what *)
(* the content of each file is a function.                                 *)
(*                                                                         *)
(* s: [bad, syntax, dead, conflict : BOOLEAN]  what the source is          *)
(* o: the options of the run                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

LexFiles == {"lexer/lexer.go", "token/token.go"}
GllFiles == {"parser/parser.go", "parser/bsr/bsr.go", "parser/slot/slot.go", "parser/symbols/symbols.go", "sppf/sppf.go"}
LRFiles == {"parser/parser.go", "parser/action.go", "parser/actiontable.go", "parser/gototable.go",
            "parser/productionstable.go", "errors/errors.go"}
AstFile == "ast/ast.go"
VerboseFiles == {"symbols.txt", "first_follow.txt", "grammar_slots.txt", "lexfsa.txt"}
LRVerbose == {"CFG_items.txt", "LR1_states.txt"}
Conflicts == "LR1_conflicts.txt"
Outputs == LexFiles \cup GllFiles \cup LRFiles \cup VerboseFiles \cup LRVerbose \cup {AstFile, Conflicts}
Reports == VerboseFiles \cup LRVerbose \cup {Conflicts}

Kind(o) == IF o.knuth THEN "knuth" ELSE IF o.pager THEN "pager" ELSE "gll"

Verdict(s, o) ==
  IF o.h \/ o.version THEN "info"
  ELSE IF o.nosrc \/ (o.knuth /\ o.pager) THEN "refused"
  ELSE IF s.bad THEN "bad"
  ELSE IF ~s.syntax THEN "ok"
  ELSE IF Kind(o) = "gll" THEN (IF s.dead THEN "dead" ELSE "ok")
  ELSE IF s.conflict /\ ~o.res THEN "conflict"
  ELSE "ok"

Succeeds(v) == v \in {"ok", "info"}

(* what a run may do to output file f: keep it, write it (with the content *)
(* of Content), remove it                                                  *)
Treat(s, o, f, exists) ==
  LET v == Verdict(s, o) IN
  IF v \notin {"ok", "conflict"} THEN {"keep"}
  ELSE IF f \in LexFiles THEN (IF v = "ok" THEN {"write"} ELSE {"keep", "write"})
  ELSE IF f \in VerboseFiles THEN (IF ~o.v THEN {"keep"} ELSE IF v = "ok" THEN {"write"} ELSE {"keep", "write"})
  ELSE IF ~s.syntax THEN {"keep"}
  ELSE IF Kind(o) = "gll" THEN (IF f \in GllFiles THEN {"write"} ELSE {"keep"})
  ELSE IF f \in LRFiles THEN (IF v = "ok" THEN {"write"} ELSE {"keep"})
  ELSE IF f = AstFile THEN (IF v = "ok" /\ (o.a \/ ~exists) THEN {"write"} ELSE {"keep"})
  ELSE IF f = Conflicts THEN (IF s.conflict THEN {"write"} ELSE {"remove"})
  ELSE IF f \in LRVerbose THEN
       (IF o.v /\ v = "ok" THEN {"write"} ELSE IF o.v THEN {"keep", "write", "remove"} ELSE {"keep", "remove"})
  ELSE {"keep"}

(* of which options the content of a written file is a function *)
ByKind(f) == f \in (LRFiles \ {"errors/errors.go"}) \cup LRVerbose \cup {Conflicts}
Depends(f, o) == IF ByKind(f) \/ f \in GllFiles THEN Kind(o) ELSE ""
=============================================================================
