------------------------------- MODULE RecGen --------------------------------
(* All short histories of one record context on a small image: states set, and   *)
(* barriers asked with or without a layout for what is not known.  Printed        *)
(* complete, to be replayed on a real record context.                             *)
EXTENDS TrackCore, Json
CONSTANTS Mips, Layers, K, Lays, Inits, Forces
VARIABLES t, hist
Im == [depth |-> 1, mips |-> Mips]
Ranges == { << m, n, y, z >> \in (0..Mips-1) \X (1..Mips) \X (0..Layers-1) \X (1..Layers) : m + n <= Mips /\ y + z <= Layers }
Init == t = Track0 /\ hist = << >>
SetOne == \E r \in Ranges, y \in Lays :
             /\ t' = TSet(t, Cells(1, Im, 1, r), y)
             /\ hist' = Append(hist, [op |-> "rcset", r |-> r, lay |-> y])
Barrier == \E r \in Ranges, y \in Lays, i \in Inits, f \in Forces :
             /\ t' = TSet(t, Cells(1, Im, 1, r), y)
             /\ hist' = Append(hist, [op |-> "rcbar", r |-> r, lay |-> y, init |-> i, force |-> f])
Next == Len(hist) < K /\ (SetOne \/ Barrier)
Done == Len(hist) < K \/ PrintT(ToJson(hist))
\* what is known stays known
Preserved == [][DOMAIN t \subseteq DOMAIN t']_<< t, hist >>
Spec == Init /\ [][Next]_<< t, hist >>
=============================================================================
