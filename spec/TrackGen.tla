------------------------------ MODULE TrackGen -------------------------------
(* All short histories of updates and merges of two trackers of a small image;  *)
(* printed complete, to be replayed on the real trackers.  What a merge must     *)
(* preserve is checked on the way.                                               *)
EXTENDS TrackCore, Json
CONSTANTS Mips, Layers, K, Lays
VARIABLES t1, t2, hist
Im == [depth |-> 1, mips |-> Mips]
Ranges == { << m, n, y, z >> \in (0..Mips-1) \X (1..Mips) \X (0..Layers-1) \X (1..Layers) : m + n <= Mips /\ y + z <= Layers }
Init == t1 = Track0 /\ t2 = Track0 /\ hist = << >>
SetOne == \E r \in Ranges, y \in Lays :
             /\ t1' = TSet(t1, Cells(1, Im, 1, r), y) /\ UNCHANGED t2
             /\ hist' = Append(hist, [op |-> "tset", id |-> 1, r |-> r, lay |-> y])
\* the second tracker is only told of the whole image or of single levels
SetTwo == \E r \in { << 0, Mips, 0, Layers >> } \cup { << m, 1, 0, 1 >> : m \in 0..Mips-1 }, y \in Lays :
             /\ t2' = TSet(t2, Cells(1, Im, 1, r), y) /\ UNCHANGED t1
             /\ hist' = Append(hist, [op |-> "tset", id |-> 2, r |-> r, lay |-> y])
Merge == /\ t2 # Track0 /\ t1' = TMerge(t1, t2) /\ UNCHANGED t2 /\ hist' = Append(hist, [op |-> "tadd", id |-> 1, from |-> 2])
Next == Len(hist) < K /\ (SetOne \/ SetTwo \/ Merge)
Done == Len(hist) < K \/ PrintT(ToJson(hist))
\* nothing known is ever forgotten, and merging leaves what was known alone
Preserved == [][/\ DOMAIN t1 \subseteq DOMAIN t1'
                /\ (Len(hist') > 0 /\ hist'[Len(hist')].op = "tadd") => \A c \in DOMAIN t1 : t1'[c] = t1[c]]_<< t1, t2, hist >>
Spec == Init /\ [][Next]_<< t1, t2, hist >>
=============================================================================
