------------------------------- MODULE TraceTool -------------------------------
(***************************************************************************)
(* Validates recorded histories of the real tool against ToolRules and     *)
(* Source.  Events of a history, in order:                                 *)
(*   begin  files: what exists (path -> hash), at the start                *)
(*   user   ch: what the user changed (path -> hash, "-" if removed)       *)
(*   run    src: the source (a line of the grammar file), at: where it     *)
(*          lies, o: the options, rc, panic, ch: what changed, said: what  *)
(*          the output says, pos: the <<line, column>>s it mentions,       *)
(*          key, keys: the precision with which contents are compared      *)
(*   build  ok: whether what was generated into dir compiles               *)
(* What sources mean is computed from their tokens.                        *)
(***************************************************************************)
EXTENDS Source, ToolRules, Json, IOUtils, Integers

TraceFile == IOEnv.VT_TRACE
GramFile == IOEnv.VT_GRAMMARS
Clauses == IOEnv.VT_CLAUSES
Trace == ndJsonDeserialize(TraceFile)
Srcs == ndJsonDeserialize(GramFile)

Used == {Trace[i].src : i \in {i \in DOMAIN Trace : Trace[i].ev = "run" /\ Trace[i].src # 0}}
NoSource == [bad |-> TRUE, syntax |-> FALSE, dead |-> FALSE, conflict |-> FALSE, off |-> {}]

AttrOf(T, ts) ==
  LET off == Offences(T, ts) IN
  IF off # {} THEN [bad |-> TRUE, syntax |-> FALSE, dead |-> FALSE, conflict |-> FALSE, off |-> off]
  ELSE LET g == SourceGrammar(ts) IN
       IF g.prods = <<>> THEN [bad |-> FALSE, syntax |-> FALSE, dead |-> FALSE, conflict |-> FALSE, off |-> {}]
       ELSE [bad |-> FALSE, syntax |-> TRUE, dead |-> NeverCalled(g) # {},
             conflict |-> HasConflict(g, LAutomaton(g)), off |-> {}]

(* the meaning of a source: its tokens without their places *)
Words(ts) == [i \in 1..(Len(ts)-1) |-> <<ts[i].k, ts[i].v>>]

Attrs == TLCGet(1)     \* source -> attributes
Mean == TLCGet(2)      \* source -> the first source with the same tokens

VARIABLES i, rejected,
          fs,      \* path -> hash
          memo,    \* what was written, where it may depend on nothing else -> hash
          gen      \* directory -> what was last generated there
vars == <<i, rejected, fs, memo, gen>>

None == [x \in {} |-> ""]

Init == /\ i = 1 /\ rejected = 0 /\ fs = None /\ memo = None /\ gen = None
        /\ \E T \in {TLCEval(MetaTables)} :
             /\ TLCSet(1, TLCEval([n \in Used |-> AttrOf(T, Srcs[n].toks)]))
             /\ TLCSet(2, TLCEval([n \in Used |-> CHOOSE m \in Used :
                    /\ Words(Srcs[m].toks) = Words(Srcs[n].toks)
                    /\ \A k \in Used : Words(Srcs[k].toks) = Words(Srcs[n].toks) => m <= k]))

Apply(m, ch) == [p \in (DOMAIN m \cup DOMAIN ch) \ {p \in DOMAIN ch : ch[p] = "-"} |->
                   IF p \in DOMAIN ch THEN ch[p] ELSE m[p]]
Now(m, p) == IF p \in DOMAIN m THEN m[p] ELSE "-"

Dir(e) == e.dir
OutPath(e, f) == Dir(e) \o "/" \o f
AttrE(e) == IF e.src = 0 THEN NoSource ELSE Attrs[e.src]

(* how contents are compared: "source" only for the same source text and   *)
(* options, "layout" for all sources with the same tokens, "options" for   *)
(* all options the file does not depend on                                 *)
Key(e, f) ==
  f \o "#" \o (IF e.by = "layout" THEN "m" \o ToString(Mean[e.src]) ELSE "s" \o ToString(e.src))
    \o "#" \o (IF e.by = "options" THEN Depends(f, e.o) ELSE e.opts)

(* what happened to output file f of the run *)
Did(e, m1, f) ==
  LET p == OutPath(e, f) IN
  IF p \notin DOMAIN e.ch THEN {"keep"} \cup (IF p \in DOMAIN fs THEN {} ELSE {"remove"})
  ELSE IF e.ch[p] = "-" THEN {"remove"} ELSE {"write"}

(* a file that is written with the content it had was written and kept *)
Fresh(e, m1, f) == LET p == OutPath(e, f) IN p \in DOMAIN m1 /\ (Key(e, f) \in DOMAIN memo => memo[Key(e, f)] = m1[p])

FileOK(e, m1, f) ==
  LET t == Treat(AttrE(e), e.o, f, OutPath(e, f) \in DOMAIN fs)
      d == Did(e, m1, f)
  IN \/ d \cap t # {} /\ ("write" \in d => Fresh(e, m1, f))
     \/ "write" \in t /\ "keep" \in d /\ OutPath(e, f) \in DOMAIN m1 /\ Fresh(e, m1, f)

RunFails(e) ==
  LET s == AttrE(e)
      v == Verdict(s, e.o)
      m1 == Apply(fs, e.ch)
      outs == {OutPath(e, f) : f \in Outputs} \cup (IF e.o.cpu /\ v \notin {"info", "refused"} THEN {e.cwd \o "/cpu.prof"} ELSE {})
      wrong == {f \in Outputs : ~FileOK(e, m1, f)}
  IN (IF e.panic THEN {"panic"} ELSE {})
     \cup (IF e.rc = 0 /\ ~Succeeds(v) THEN {"accepted:" \o v} ELSE {})
     \cup (IF e.rc # 0 /\ Succeeds(v) THEN {"failed:" \o v} ELSE {})
     \cup (IF DOMAIN e.ch \subseteq outs THEN {} ELSE {"other-file"})
     \cup (IF v \in {"bad", "dead", "refused", "info"} /\ (DOMAIN e.ch \cap {OutPath(e, f) : f \in Outputs}) # {}
           THEN {"not-clean:" \o v} ELSE {})
     \cup (IF v \in {"bad", "dead", "refused", "info"} THEN {} ELSE {"file:" \o f : f \in wrong})
     \cup (IF v = "bad" /\ e.src # 0 /\ ~(\E k \in s.off : <<Srcs[e.src].toks[k].l, Srcs[e.src].toks[k].c>> \in {<<e.pos[n][1], e.pos[n][2]>> : n \in DOMAIN e.pos})
           THEN {"message"} ELSE {})
     \cup (IF v # "ok" /\ e.said = <<>> THEN {"silent:" \o v} ELSE {})
     \cup (IF v = "info" /\ ~((e.o.h /\ "usage" \in Range(e.said)) \/ (e.o.version /\ "version" \in Range(e.said))) THEN {"info"} ELSE {})
     \cup (IF v = "ok" /\ e.o.bs /\ s.syntax /\ Kind(e.o) = "gll" /\ "bsr" \notin Range(e.said) THEN {"bs"} ELSE {})
     \cup (IF v = "ok" /\ e.o.cpu /\ Now(m1, e.cwd \o "/cpu.prof") = "-" THEN {"cpuprof"} ELSE {})

Family(k) == IF k = "gll" THEN "gll" ELSE "lr"

NewGen(e) ==
  LET s == AttrE(e) v == Verdict(s, e.o) d == Dir(e)
      old == IF d \in DOMAIN gen THEN gen[d] ELSE [fam |-> "none", src |-> 0, ast |-> 0]
      fam == IF ~s.syntax THEN "lexer" ELSE Family(Kind(e.o))
      made == fam = "lr" /\ (e.o.a \/ OutPath(e, AstFile) \notin DOMAIN fs)
      new == [fam |-> IF old.fam \in {"none", fam} THEN fam ELSE "mixed",
              src |-> Mean[e.src],
              ast |-> IF made THEN Mean[e.src] ELSE old.ast]
  IN IF v # "ok" THEN (IF v = "conflict" THEN (d :> [old EXCEPT !.src = 0]) @@ gen ELSE gen)
     ELSE (d :> new) @@ gen

(* the user's hand on what was generated *)
Touched(e) ==
  [d \in DOMAIN gen |->
     LET a == d \o "/" \o AstFile
         o == {d \o "/" \o f : f \in Outputs \ {AstFile}}
         g1 == IF a \in DOMAIN e.ch /\ (e.ch[a] = "-" \/ a \notin DOMAIN fs) THEN [gen[d] EXCEPT !.ast = 0] ELSE gen[d]
     IN IF o \cap DOMAIN e.ch # {} THEN [g1 EXCEPT !.src = 0] ELSE g1]

(* what is in directory d is all of one generation, so it must compile *)
MustBuild(d) == /\ d \in DOMAIN gen /\ gen[d].fam \in {"lexer", "gll", "lr"} /\ gen[d].src # 0
                /\ gen[d].fam = "lr" => gen[d].ast = gen[d].src

Failing(e) ==
  CASE e.ev = "run" -> RunFails(e)
    [] e.ev = "build" -> IF MustBuild(e.dir) /\ ~e.ok THEN {"build"} ELSE {}
    [] OTHER -> {}

Learn(e) ==
  IF e.ev # "run" \/ ~(Verdict(AttrE(e), e.o) \in {"ok", "conflict"}) THEN memo
  ELSE LET m1 == Apply(fs, e.ch)
           F == {f \in Outputs : /\ "write" \in Treat(AttrE(e), e.o, f, OutPath(e, f) \in DOMAIN fs)
                                 /\ "keep" \notin Treat(AttrE(e), e.o, f, OutPath(e, f) \in DOMAIN fs)
                                 /\ OutPath(e, f) \in DOMAIN m1
                                 /\ Key(e, f) \notin DOMAIN memo}
       IN IF F = {} THEN memo
          ELSE [k \in {Key(e, f) : f \in F} |-> m1[OutPath(e, CHOOSE f \in F : Key(e, f) = k)]] @@ memo

Accept ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     \E f \in {Failing(e)} :
       /\ i' = i + 1
       /\ fs' = IF e.ev = "begin" THEN Apply(None, e.ch) ELSE IF e.ev = "build" THEN fs ELSE Apply(fs, e.ch)
       /\ memo' = Learn(e)
       /\ gen' = IF e.ev = "begin" THEN None ELSE IF e.ev = "run" THEN NewGen(e) ELSE IF e.ev = "user" THEN Touched(e) ELSE gen
       /\ IF f = {} THEN rejected' = rejected
          ELSE PrintT(<<"REJECT", i, f>>) /\ rejected' = rejected + 1
Spec == Init /\ [][Accept]_vars
Done == i = Len(Trace) + 1 => PrintT(<<"CONSUMED", Len(Trace), rejected>>)
=============================================================================
