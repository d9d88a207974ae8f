--------------------------------- MODULE Tool ---------------------------------
(***************************************************************************)
(* Histories of a directory: the user edits sources and files, and runs    *)
(* gogll with some options.  Contents are symbols: <<"gen", f, source,     *)
(* dependency>> is generated, <<"user", n>> was written by the user.       *)
(*                                                                         *)
(* TLC checks the invariants on a small instance and, in simulation mode,  *)
(* generates the histories that are replayed on the real tool (Dump).      *)
(***************************************************************************)
EXTENDS ToolRules, Json

CONSTANTS Sources,     \* 1..n
          Bad, Lexical, Dead, Conflicting,   \* subsets of Sources
          Opts,        \* the options runs are made with
          UserFiles,   \* output files and others the user may touch
          Length       \* events of a history

VARIABLES src,      \* the source now in the source file
          fs,       \* file -> content; files not in DOMAIN do not exist
          last,     \* the verdict of the last event, if it was a run
          astOwner, \* "none", "tool" or "user"
          hist
vars == <<src, fs, last, astOwner, hist>>

Attr(x) == [bad |-> x \in Bad, syntax |-> x \notin Lexical, dead |-> x \in Dead, conflict |-> x \in Conflicting]
Content(f, x, o) == <<"gen", f, x, Depends(f, o)>>

Init == /\ src \in Sources
        /\ fs = [f \in {"notes.txt"} |-> <<"user", 0>>]
        /\ last = "" /\ astOwner = "none"
        /\ hist = <<[ev |-> "source", src |-> src, file |-> "", opt |-> 0]>>

Without(m, f) == [g \in DOMAIN m \ {f} |-> m[g]]

(* one of the file systems a run may leave *)
Outcome(x, o, m) ==
  [f \in {f \in DOMAIN m \cup Outputs :
            LET t == Treat(Attr(x), o, f, f \in DOMAIN m) IN
            IF f \notin Outputs THEN TRUE
            ELSE ("write" \in t) \/ (f \in DOMAIN m /\ "keep" \in t)} |->
     IF f \in Outputs /\ "write" \in Treat(Attr(x), o, f, f \in DOMAIN m) THEN Content(f, x, o) ELSE m[f]]

Run(n) ==
  LET o == Opts[n] IN
  /\ fs' = Outcome(src, o, fs)
  /\ last' = Verdict(Attr(src), o)
  /\ astOwner' = IF AstFile \in DOMAIN fs' /\ fs'[AstFile][1] = "gen" THEN "tool" ELSE astOwner
  /\ hist' = Append(hist, [ev |-> "run", src |-> src, file |-> "", opt |-> n])
  /\ UNCHANGED src

Edit(f) ==
  /\ fs' = (f :> <<"user", Len(hist)>>) @@ fs
  /\ last' = ""
  /\ astOwner' = IF f = AstFile THEN "user" ELSE astOwner
  /\ hist' = Append(hist, [ev |-> "edit", src |-> src, file |-> f, opt |-> 0])
  /\ UNCHANGED src

Delete(f) ==
  /\ f \in DOMAIN fs
  /\ fs' = Without(fs, f)
  /\ last' = ""
  /\ astOwner' = IF f = AstFile THEN "none" ELSE astOwner
  /\ hist' = Append(hist, [ev |-> "delete", src |-> src, file |-> f, opt |-> 0])
  /\ UNCHANGED src

SetSource(x) ==
  /\ x # src /\ src' = x
  /\ last' = ""
  /\ hist' = Append(hist, [ev |-> "source", src |-> x, file |-> "", opt |-> 0])
  /\ UNCHANGED <<fs, astOwner>>

Next == /\ Len(hist) < Length
        /\ \/ \E n \in DOMAIN Opts : Run(n)
           \/ \E f \in UserFiles : Edit(f) \/ Delete(f)
           \/ \E x \in Sources : SetSource(x)

Spec == Init /\ [][Next]_vars

(* Histories in which the user does two things between runs, whatever the    *)
(* number of options (for simulation: steps are drawn, not kinds of steps)   *)
BusyNext == /\ Len(hist) < Length
            /\ IF Len(hist) % 3 = 1 THEN \E n \in DOMAIN Opts : Run(n)
               ELSE \/ \E f \in UserFiles : Edit(f) \/ Delete(f)
                    \/ \E x \in Sources : SetSource(x)
BusySpec == Init /\ [][BusyNext]_vars

(* C04: what the user wrote into the AST file is there until they ask *)
AstSafe == astOwner = "user" => AstFile \in DOMAIN fs /\ fs[AstFile][1] = "user"
(* C04, C07: after a successful run every file of the parser is that of the source *)
UpToDate ==
  (last = "ok") =>
    LET o == Opts[hist[Len(hist)].opt] s == Attr(src) IN
    \A f \in LexFiles \cup (IF ~s.syntax THEN {} ELSE IF Kind(o) = "gll" THEN GllFiles ELSE LRFiles) :
       f \in DOMAIN fs /\ fs[f] = Content(f, src, o)
(* C04: with -a, so is the AST *)
AstOnRequest ==
  (last = "ok") =>
    LET o == Opts[hist[Len(hist)].opt] s == Attr(src) IN
    s.syntax /\ Kind(o) # "gll" => AstFile \in DOMAIN fs /\ (o.a => fs[AstFile][1] = "gen" /\ fs[AstFile][3] = src)
(* C05: every file is an output file or one of the user's *)
Contained == \A f \in DOMAIN fs : f \notin Outputs => fs[f][1] = "user"
(* C01: a run that refuses its source, and asking for information, change nothing *)
FailuresAreClean ==
  [][last' \in {"bad", "refused", "dead", "info"} => fs' = fs]_vars
(* R03: a conflict leaves the parser as it was *)
ConflictKeepsParser ==
  [][last' = "conflict" => \A f \in LRFiles \cup GllFiles \cup {AstFile} :
        (f \in DOMAIN fs <=> f \in DOMAIN fs') /\ (f \in DOMAIN fs => fs'[f] = fs[f])]_vars
(* a run twice in a row changes nothing the second time *)
Idempotent ==
  (last # "" /\ last # "refused") =>
    LET o == Opts[hist[Len(hist)].opt] IN Outcome(src, o, fs) = fs

Dump == Len(hist) = Length => PrintT("HISTORY " \o ToJson(hist))
=============================================================================
