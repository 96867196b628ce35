---------------------------------- MODULE TV ----------------------------------
(***************************************************************************)
(* Conformance of the compiler's output to its input.                      *)
(*                                                                         *)
(* A case is a source program, a set of environments (initial memories),   *)
(* and what the real compiler emitted for the program under each           *)
(* configuration.  For every case and environment the source machine runs  *)
(* block by block; when it ends, the engine machine runs each emitted      *)
(* program on the same environment, and the two runs must be               *)
(* observationally equal.                                                  *)
(***************************************************************************)
EXTENDS Machine, Json, IOUtils

File == IOEnv.TV_CASES
Cases == JsonDeserialize(File)

\* ---- observational equality -------------------------------------------------
\* The unspecified value matches anything.
\* tol: a case that exercises functions libraries may round differently is compared to within 64
\* units in the last place ("near"), for easings of the last place of 1 ("ease").
SameVal(tol, x, y) ==
  \/ x = U \/ x = y
  \/ tol # "exact" /\ y # U /\ (FNear(x, y, 64) \/ (tol = "ease" /\ FClose(x, y, 64)))
SameEvent(tol, x, y) ==
  /\ Len(x) = Len(y)
  /\ x[1] = y[1]
  /\ \A i \in 2..Len(x) : SameVal(tol, x[i], y[i])
SameTrace(tol, x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : SameEvent(tol, x[i], y[i])

\* The target draws what the source draws, in the same order; draws whose result is
\* never used may be missing.
RECURSIVE SubTrace(_, _, _, _)
SubTrace(x, i, y, j) ==
  IF j > Len(y) THEN TRUE
  ELSE IF i > Len(x) THEN FALSE
  ELSE IF SameEvent("exact", x[i], y[j]) THEN SubTrace(x, i + 1, y, j + 1) ELSE SubTrace(x, i + 1, y, j)

RECURSIVE Flat(_, _)
Flat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Flat(q, i + 1)

\* Total verdict on one emitted program: the failing clause, or "ok".
Verdict(tol, src, eng) ==
  CASE eng.x = "malformed"     -> "not a well-formed engine program"
    [] eng.x = "temp-overflow" -> "temporary storage outside the arena"
    [] eng.x = "fuel"          -> "does not terminate"
    [] eng.x # "done"          -> "depends on an unspecified value"
    [] ~SameTrace(tol, src.tr, eng.tr) -> "observable effects differ"
    [] ~SubTrace(src.dr, 1, eng.dr, 1) -> "random draws differ"
    [] ~SameVal(tol, src.r, eng.r)  -> "result differs"
    [] OTHER                   -> "ok"

\* ---- behaviours ------------------------------------------------------------
VARIABLES c, k, pc, s, ph, o, bad
vars == <<c, k, pc, s, ph, o, bad>>

Tally(i, n) == TLCSet(i, TLCGet(i) + n)

Init ==
  /\ \A i \in 1..7 : TLCSet(i, 0)
  /\ c \in 1..Len(Cases)
  /\ k \in 1..Len(Cases[c].env)
  /\ pc = 1
  /\ s = State0(Cases[c].env[k], Cases[c].fuel)
  /\ ph = "source" /\ o = 0 /\ bad = "ok"

\* the source machine executes one basic block
SourceStep ==
  /\ ph = "source" /\ pc # 0 /\ s.f > 0
  /\ LET n == SBlock(Cases[c].src, pc, s)
     IN pc' = n.pc /\ s' = [n.s EXCEPT !.f = @ - 1]
  /\ UNCHANGED <<c, k, ph, o, bad>>

\* the source program ended within what it promises: judge the emitted programs
SourceEnd ==
  /\ ph = "source" /\ pc = 0 /\ s.x = "done"
  /\ ph' = "engine" /\ o' = 1
  /\ Tally(3, Len(s.tr)) /\ Tally(4, IF Len(s.tr) > 0 THEN 1 ELSE 0) /\ Tally(5, Len(s.dr))
  /\ UNCHANGED <<c, k, pc, s, bad>>

\* the source program promises nothing on this environment (or is too long to follow)
SourceNoPromise ==
  /\ ph = "source" /\ (s.x # "done") /\ (pc = 0 \/ s.f = 0)
  /\ ph' = "skip" /\ Tally(1, 1)
  /\ UNCHANGED <<c, k, pc, s, o, bad>>

EngineRun ==
  /\ ph = "engine" /\ o <= Len(Cases[c].out)
  /\ LET out == Cases[c].out[o]
         z == State0(Cases[c].env[k], 4 * (Cases[c].fuel - s.f) + 100)
         \* an emitted engine program, or a graph the compiler exported
         Run(da) == IF out.kind = "engine" THEN EProgram(out.nodes, out.root, [z EXCEPT !.da = da])
                    ELSE SProgram(out.src, 1, [z EXCEPT !.da = da])
         e == Run(<<>>)
         v0 == Verdict(Cases[c].tol, s, e)
         \* draws the target leaves out (unused ones) shift the answers its other draws get: there
         \* must be a choice of the draws left out under which the runs agree
         n == Len(s.dr)
         v == IF v0 = "ok" \/ n = 0 \/ Len(e.dr) >= n \/ e.x = "malformed" THEN v0
              ELSE IF n > 7 THEN "ok"
              ELSE IF \E keep \in SUBSET (1..n) :
                        /\ Cardinality(keep) < n
                        /\ LET ans == [j \in 1..n |-> IF j \in keep THEN <<s.dr[j][Len(s.dr[j])]>> ELSE <<>>]
                           IN Verdict(Cases[c].tol, s, Run(Flat(ans, 1))) = "ok"
                   THEN "ok" ELSE v0
     IN /\ o' = o + 1
        /\ Tally(2, 1)
        /\ IF v = "ok" THEN bad' = bad
           ELSE /\ PrintT(<<"FAIL", ToJson([id |-> Cases[c].id, env |-> k, out |-> out.id, clause |-> v,
                               src |-> [tr |-> s.tr, dr |-> s.dr, r |-> s.r],
                               eng |-> [tr |-> e.tr, dr |-> e.dr, r |-> e.r, x |-> e.x]])>>)
                /\ bad' = v /\ Tally(6, 1)
  /\ UNCHANGED <<c, k, pc, s, ph>>

Done == /\ ph = "engine" /\ o > Len(Cases[c].out)
        /\ ph' = "ok" /\ Tally(7, 1)
        /\ UNCHANGED <<c, k, pc, s, o, bad>>

Next == SourceStep \/ SourceEnd \/ SourceNoPromise \/ EngineRun \/ Done
Spec == Init /\ [][Next]_vars

\* Every program the compiler emitted behaves as its source.
Conforms == bad = "ok"

\* Evaluated once at the end: what was covered, and the verdict over all runs.  (Run with one
\* worker; the checker reads the FAIL lines, so that every failing case is named.)
Accepted ==
  PrintT(<<"STATS", ToJson([skipped |-> TLCGet(1), engine_runs |-> TLCGet(2), events |-> TLCGet(3),
                            eventful |-> TLCGet(4), draws |-> TLCGet(5), failed |-> TLCGet(6),
                            judged |-> TLCGet(7)])>>)
=============================================================================
