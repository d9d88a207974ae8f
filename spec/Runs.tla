--------------------------------- MODULE Runs ---------------------------------
(***************************************************************************)
(* Histories of parses.  Jobs start and finish; a job parses one input on  *)
(* a lexer of its own or on one another job uses or used; any number may   *)
(* be under way at once.  What a job returns depends on its input alone:   *)
(* there is no other state for it to depend on.                            *)
(*                                                                         *)
(* TLC checks the small instance exhaustively and, in simulation mode,     *)
(* generates the schedules that are run on the real parsers (Dump).        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Jobs, Inputs, Width   \* Width: most jobs at once

VARIABLES state,   \* job -> "new" | "running" | "done"
          input,   \* job -> input (0: none yet)
          lexer,   \* job -> number of the lexer it uses (0: none yet)
          result,  \* job -> what it returned (0: nothing yet)
          hist     \* the events so far
vars == <<state, input, lexer, result, hist>>

Parse(x) == x + 100      \* stands for the one result of input x

Init == /\ state = [j \in Jobs |-> "new"]
        /\ input = [j \in Jobs |-> 0]
        /\ lexer = [j \in Jobs |-> 0]
        /\ result = [j \in Jobs |-> 0]
        /\ hist = <<>>

Running == {j \in Jobs : state[j] = "running"}

Start(j, x, l) ==
  /\ state[j] = "new"
  /\ \A k \in Jobs : k < j => state[k] # "new"
  /\ Cardinality(Running) < Width
  /\ l = j \/ \E k \in Jobs : lexer[k] = l /\ input[k] = x   \* a lexer belongs to one input
  /\ state' = [state EXCEPT ![j] = "running"]
  /\ input' = [input EXCEPT ![j] = x]
  /\ lexer' = [lexer EXCEPT ![j] = l]
  /\ hist' = Append(hist, [ev |-> "start", j |-> j, x |-> x, lex |-> l])
  /\ UNCHANGED result

Finish(j) ==
  /\ state[j] = "running"
  /\ state' = [state EXCEPT ![j] = "done"]
  /\ result' = [result EXCEPT ![j] = Parse(input[j])]
  /\ hist' = Append(hist, [ev |-> "finish", j |-> j, x |-> input[j], lex |-> lexer[j]])
  /\ UNCHANGED <<input, lexer>>

Next == \E j \in Jobs : Finish(j) \/ \E x \in Inputs, l \in Jobs : Start(j, x, l)

Spec == Init /\ [][Next]_vars

AllDone == \A j \in Jobs : state[j] = "done"
(* G08: equal inputs give equal results *)
Function == \A j, k \in Jobs : state[j] = "done" /\ state[k] = "done" /\ input[j] = input[k] => result[j] = result[k]
LexerOfOneInput == \A j, k \in Jobs : lexer[j] # 0 /\ lexer[j] = lexer[k] => input[j] = input[k]
Dump == AllDone => PrintT("HISTORY " \o ToJson(hist))
=============================================================================
