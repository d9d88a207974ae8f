-------------------------------- MODULE MCGLL --------------------------------
(* GLL.tla for the grammars in a file and all inputs up to a length: every  *)
(* schedule, and all schedules end in the same state.                       *)
EXTENDS CFG, Integers, Json, IOUtils
Grams == ndJsonDeserialize(IOEnv.VT_GRAMMARS)
MaxLen == atoi(IOEnv.VT_LEN)

Prepare ==
  /\ TLCSet(1, TLCEval([n \in DOMAIN Grams |-> FirstTab(Grams[n])]))
  /\ TLCSet(2, TLCEval([n \in DOMAIN Grams |-> Nullable(Grams[n])]))
  /\ TLCSet(3, TLCEval([n \in DOMAIN Grams |-> FollowTab(Grams[n])]))
  /\ TLCSet(5, <<<<0, <<>>>>, 0>>) /\ TLCSet(6, [k \in {} |-> 0])
  /\ TLCSet(4, [k \in {} |-> 0])
(* a grammar carries its number *)
FirstOf(g, p, k) == SlotFirst(TLCGet(1)[g.n], TLCGet(2)[g.n], TLCGet(3)[g.n], p, k)
FollowOf(g, X) == TLCGet(3)[g.n][X]

(* computed once for each input *)
EndsOf(g, w) ==
  LET k == <<g.n, w>> c == TLCGet(5) IN
  IF c[1] = k THEN c[2] ELSE LET e == TLCEval(EndsTab(g, w)) IN IF TLCSet(5, <<k, e>>) THEN e ELSE e
TreeOf(g, w) ==
  LET k == <<g.n, w>> c == TLCGet(6) IN
  IF k \in DOMAIN c THEN c[k]
  ELSE LET e == TLCEval(Forest(EndsOf(g, w), ByHead(g), w, g.start)) IN IF TLCSet(6, (k :> e) @@ c) THEN e ELSE e

VARIABLES g, w, R, U, crf, popped, bsrs, errs
M == INSTANCE GLL WITH First <- FirstOf, Follow <- FollowOf, Ends <- EndsOf, Tree <- TreeOf

Words(T, n) == UNION {[1..k -> T] : k \in 0..n}
Init ==
  /\ Prepare
  /\ \E n \in DOMAIN Grams :
        /\ g = [start |-> Grams[n].start, prods |-> Grams[n].prods, n |-> n]
        /\ w \in Words(Terms(Grams[n]), MaxLen)
  /\ M!Init0
Spec == Init /\ [][M!Next]_M!vars /\ WF_M!vars(M!Next)

Sound == M!Sound
Complete == M!Complete
Navigable == M!Navigable
Errors == M!Errors
Bounded == M!Bounded
Stops == M!Stops

(* confluence: all schedules end in one state (run with one worker: a      *)
(* register keeps the end first reached)                                   *)
Final == <<crf, popped, bsrs, errs, U>>
Confluent ==
  M!Stopped =>
    LET k == <<g.n, w>> seen == TLCGet(4) IN
    IF k \in DOMAIN seen THEN seen[k] = Final ELSE TLCSet(4, (k :> Final) @@ seen)

(* the decision CFG.tla makes from viable items agrees with the definition *)
NextDef ==
  (R = U /\ Reduced(g)) =>
     \A v \in 0..ViableLen(g, w, M!E) : NextTokens(g, w, v) = NextTokensDef(g, w, v)
=============================================================================
