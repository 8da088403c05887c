------------------------------ MODULE StructGen ------------------------------
(* All programs of N passes, numbered in declaration order, each depending on    *)
(* any of the earlier ones and using one resource in any way: printed complete,  *)
(* to be replayed on the real graph.  The hand-overs found by following the       *)
(* dependencies as the library is meant to - stopping at a pass which uses the    *)
(* resource - are shown to be complete and sound for each of them.               *)
EXTENDS StructCore, Json, Sequences, TLC
CONSTANTS N, Uses     \* ways of using the resource: "-", "r", "w", "rw", "m" (reads one level), "x" (writes a disjoint part)
VARIABLES dep, use
Im == [id |-> 1, depth |-> 1, mips |-> 2]
V(lid, r) == [res |-> "v", lid |-> lid, im |-> Im, fmt |-> 37, asp |-> {"C"}, vt |-> 5, r |-> r]
All == V(1, << 0, 2, 0, 1 >>)
Lvl == V(2, << 1, 1, 0, 1 >>)
Oth == V(3, << 0, 2, 1, 1 >>)
outs == [p \in 1..N |-> CASE use[p] \in {"w", "rw"} -> {All} [] use[p] = "x" -> {Oth} [] OTHER -> {}]
ins == [p \in 1..N |-> CASE use[p] \in {"r", "rw"} -> {All} [] use[p] = "m" -> {Lvl} [] OTHER -> {}]
\* as designed: search the dependencies of c for the writer a of view v
RECURSIVE Finds(_, _, _)
Finds(c, a, v) == \E p \in dep[c] : IF v \in outs[p] THEN p = a
                                   ELSE IF v \in ins[p] THEN FALSE
                                   ELSE Finds(p, a, v)
Designed == UNION { UNION { { << a, c, w, r >> : << w, r >> \in { x \in outs[a] \X ins[c] : Touching(x[1], x[2])
                                  /\ Finds(c, a, IF x[2].r[2] = 1 THEN x[1] ELSE x[2]) } } : a \in 1..N \ {c} } : c \in 1..N }
Init == dep \in [1..N -> SUBSET (1..N)] /\ (\A p \in 1..N : \A q \in dep[p] : q < p) /\ use \in [1..N -> Uses]
Next == UNCHANGED << dep, use >>
Complete == Due(dep, outs, ins) \subseteq Designed
NotMore == \A d \in Designed : Sound(dep, outs, ins, d[1], d[2], d[3], d[4])
Printed == PrintT(ToJson([dep |-> dep, use |-> use]))
Spec == Init /\ [][Next]_<< dep, use >>
=============================================================================
