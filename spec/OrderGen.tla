------------------------------ MODULE OrderGen -------------------------------
(* All dependency relations over N passes, numbered in declaration order, with    *)
(* all ways of leaving passes out of the second of two frames: printed, to be     *)
(* compiled and run on the real library.  On the way: an order which respects the *)
(* relation exists exactly when no pass depends on itself, directly or not, so    *)
(* what Frame.tla demands of a compiled graph can be met.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Acyclic, Sets
VARIABLES dep, on
P == 1..N
RECURSIVE Closure(_, _)
Closure(T, acc) == LET nxt == UNION { dep[p] : p \in T } \ acc IN IF nxt = {} THEN acc ELSE Closure(nxt, acc \cup nxt)
Before(p) == Closure({p}, {})
Cyclic == \E p \in P : p \in Before(p)
\* take passes whose dependencies are all taken, until none is left
RECURSIVE Sort(_)
Sort(taken) == LET ready == { p \in P \ { taken[i] : i \in DOMAIN taken } : dep[p] \subseteq { taken[i] : i \in DOMAIN taken } }
               IN IF ready = {} THEN taken ELSE Sort(Append(taken, CHOOSE p \in ready : \A q \in ready : p <= q))
Orderable == Len(Sort(<< >>)) = N <=> ~Cyclic
Sound == LET o == Sort(<< >>) IN \A i, j \in DOMAIN o : o[j] \in Before(o[i]) => j < i \/ Cyclic
Init == dep \in [P -> SUBSET P] /\ (\A p \in P : p \notin dep[p]) /\ (Acyclic => ~Cyclic) /\ on \in (IF Sets THEN SUBSET P ELSE {P})
Next == UNCHANGED << dep, on >>
Printed == PrintT(ToJson([dep |-> dep, on |-> on]))
Spec == Init /\ [][Next]_<< dep, on >>
=============================================================================
