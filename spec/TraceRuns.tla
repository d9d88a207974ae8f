------------------------------ MODULE TraceRuns ------------------------------
(***************************************************************************)
(* Validates recorded histories of parses against Runs: an event is a      *)
(* start or a finish of a job of history h; g and x name the parser and    *)
(* the input; res is what the job returned.  The only state a result may   *)
(* depend on is (g, x): memo remembers what it was the first time, in any  *)
(* history.                                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

TraceFile == IOEnv.VT_TRACE
GramFile == IOEnv.VT_GRAMMARS
Clauses == IOEnv.VT_CLAUSES
Trace == ndJsonDeserialize(TraceFile)

VARIABLES i, rejected, running, memo
vars == <<i, rejected, running, memo>>

Init == i = 1 /\ rejected = 0 /\ running = {} /\ memo = <<>>

Key(e) == <<e.g, e.x>>
KeyName(e) == e.g \o "/" \o e.x

(* one event is acceptable in this state *)
Failing(e) ==
  IF e.ev = "race" THEN {"race"}          \* two parses touched the same memory
  ELSE IF e.ev = "start" THEN (IF <<e.h, e.j>> \in running THEN {"order"} ELSE {})
  ELSE (IF <<e.h, e.j>> \in running THEN {} ELSE {"order"})
       \cup (IF KeyName(e) \in DOMAIN memo /\ memo[KeyName(e)] # e.res THEN {"differs"} ELSE {})
       \cup (IF e.panic # "" THEN {"panic"} ELSE {})

Accept ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     \E f \in {Failing(e)} :
       /\ i' = i + 1
       /\ running' = IF e.ev = "start" THEN running \cup {<<e.h, e.j>>} ELSE running \ {<<e.h, e.j>>}
       /\ memo' = IF e.ev = "finish" /\ KeyName(e) \notin DOMAIN memo THEN memo @@ (KeyName(e) :> e.res) ELSE memo
       /\ IF f = {} THEN rejected' = rejected
          ELSE PrintT(<<"REJECT", i, f>>) /\ rejected' = rejected + 1
Spec == Init /\ [][Accept]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), rejected>>)
=============================================================================
