------------------------------- MODULE TraceFF -------------------------------
(***************************************************************************)
(* Trace validation for the FIRST and FOLLOW sets gogll -v writes.         *)
(* One line per grammar: first and follow are sequences of                 *)
(* <<symbol, <<elements>>>>, as written (the empty string is Eps).         *)
(***************************************************************************)
EXTENDS CFG, Json, IOUtils

TraceFile == IOEnv.VT_TRACE
GramFile == IOEnv.VT_GRAMMARS
Clauses == IOEnv.VT_CLAUSES
Trace == ndJsonDeserialize(TraceFile)
Grams == ndJsonDeserialize(GramFile)
Eps == "empty"

Rng(s) == {s[i] : i \in DOMAIN s}
Heads(t) == [i \in DOMAIN t |-> t[i][1]]
Once(t, S) == Len(t) = Cardinality(S) /\ Rng(Heads(t)) = S
NoDup(s) == Len(s) = Cardinality(Rng(s))

FirstOK(o, g, F, N) ==
  /\ Once(o.first, NTs(g) \cup Terms(g))
  /\ \A i \in DOMAIN o.first :
       LET X == o.first[i][1] S == o.first[i][2] IN
       /\ NoDup(S)
       /\ Rng(S) = IF X \in NTs(g) THEN F[X] \cup (IF X \in N THEN {Eps} ELSE {}) ELSE {X}
FollowOK(o, g, L) ==
  /\ Once(o.follow, NTs(g))
  /\ \A i \in DOMAIN o.follow : NoDup(o.follow[i][2]) /\ Rng(o.follow[i][2]) = L[o.follow[i][1]]

Failing(o) ==
  LET g == Grams[o.g] F == FirstTab(g) N == Nullable(g) L == FollowTab(g) IN
  (IF FirstOK(o, g, F, N) THEN {} ELSE {"FIRST"}) \cup (IF FollowOK(o, g, L) THEN {} ELSE {"FOLLOW"})

VARIABLES i, rejected
Init == i = 1 /\ rejected = 0
Accept == /\ i <= Len(Trace)
          /\ \E f \in {Failing(Trace[i])} :
             /\ i' = i + 1
             /\ IF f = {} THEN rejected' = rejected
                ELSE /\ PrintT(<<"REJECT", i, f>>)
                     /\ rejected' = rejected + 1
Spec == Init /\ [][Accept]_<<i, rejected>>
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), rejected>>)
=============================================================================
