----------------------------- MODULE TraceMachine -----------------------------
(***************************************************************************)
(* Conformance of the machine of GLL.tla: each line of the trace is one    *)
(* parse by a real generated parser; the machine is run on its input with  *)
(* one schedule (MCGLL.tla: all end in the same state), and has to end     *)
(* with the very derivations and errors the real parser returned.          *)
(***************************************************************************)
EXTENDS CFG, Integers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.VT_TRACE)
Grams == ndJsonDeserialize(IOEnv.VT_GRAMMARS)
Used == {Trace[i].g : i \in DOMAIN Trace}
Rng(s) == {s[i] : i \in DOMAIN s}

Prepare ==
  /\ TLCSet(1, TLCEval([n \in Used |-> FirstTab(Grams[n])]))
  /\ TLCSet(2, TLCEval([n \in Used |-> Nullable(Grams[n])]))
  /\ TLCSet(3, TLCEval([n \in Used |-> FollowTab(Grams[n])]))
FirstOf(g, p, k) == SlotFirst(TLCGet(1)[g.n], TLCGet(2)[g.n], TLCGet(3)[g.n], p, k)
FollowOf(g, X) == TLCGet(3)[g.n][X]
EndsOf(g, w) == EndsTab(g, w)
TreeOf(g, w) == {}

VARIABLES i, differ, g, w, R, U, crf, popped, bsrs, errs
M == INSTANCE GLL WITH First <- FirstOf, Follow <- FollowOf, Ends <- EndsOf, Tree <- TreeOf
vars == <<i, differ, g, w, R, U, crf, popped, bsrs, errs>>

Gram(k) == [start |-> Grams[Trace[k].g].start, prods |-> Grams[Trace[k].g].prods, n |-> Trace[k].g]
Input(k) == SubSeq(Trace[k].toks, 1, Len(Trace[k].toks)-1)

Init == Prepare /\ i = 1 /\ differ = 0 /\ g = Gram(1) /\ w = Input(1) /\ M!Init0

Agrees(o) ==
  IF M!Accepted
  THEN ~o.setnil /\ (o.lvl > 0 => Rng(o.all) = M!Found)
  ELSE o.setnil /\ {<<e.slot, e.tok, Rng(e.exp)>> : e \in Rng(o.errs)}
                   = {<<<<e[1].h, e[1].a, e[2]>>, e[3], e[4]>> : e \in M!AllErrs}

(* one step of the machine, or on to the next parse *)
Next ==
  \/ R # {} /\ UNCHANGED <<i, differ>> /\ M!Step(CHOOSE d \in R : TRUE)
  \/ /\ R = {} /\ i <= Len(Trace)
     /\ i' = i + 1
     /\ \E a \in {Agrees(Trace[i])} :
          IF a THEN differ' = differ ELSE PrintT(<<"REJECT", i, {"M"}>>) /\ differ' = differ + 1
     /\ IF i = Len(Trace) THEN UNCHANGED <<g, w, R, U, crf, popped, bsrs, errs>>
        ELSE M!Load(Gram(i+1), Input(i+1))
Spec == Init /\ [][Next]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), differ>>)
=============================================================================
