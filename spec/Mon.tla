-------------------------------- MODULE Mon --------------------------------
(* Common part of every conformance specification: a recorded behaviour is   *)
(* consumed one event per step; each action evaluates the guards that the     *)
(* specification puts on it and records the ones the implementation broke.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt, Functions

VARIABLES l,      \* position in the recorded behaviour
          sc,     \* scenario being executed
          viol    \* guards broken so far

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* Counters of guard evaluations (kept outside of the state).
CovInit == TLCSet(7, [none |-> 0])
CovAdd(r) == LET f == TLCGet(7)
             IN  TLCSet(7, IF r \in DOMAIN f THEN [f EXCEPT ![r] = @ + 1] ELSE f @@ (r :> 1))

\* cs is a sequence of << rule, holds, detail >>.
RECURSIVE Failing(_, _)
Failing(cs, i) ==
  IF i > Len(cs) THEN << >>
  ELSE IF CovAdd(cs[i][1]) /\ cs[i][2] THEN Failing(cs, i + 1)
  ELSE << [s |-> sc, i |-> l, r |-> cs[i][1], d |-> cs[i][3]] >> \o Failing(cs, i + 1)

Report(cs) == viol' = IF Len(viol) > 3000 THEN viol ELSE viol \o Failing(cs, 1)
NoReport == viol' = viol

SetOf(s) == { s[i] : i \in DOMAIN s }
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Put(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Drop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
EmptyFn == [x \in {} |-> x]

\* The last step writes the verdict.
Finish == /\ l = Len(Trace) + 1
          /\ JsonSerialize(IOEnv.OUT, [viol |-> viol, cov |-> TLCGet(7)])
          /\ l' = l + 1
Accepted == TLCGet("stats").diameter = Len(Trace) + 2
=============================================================================
