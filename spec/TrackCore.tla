------------------------------ MODULE TrackCore ------------------------------
(* What a tracker of image layouts knows: the state last given to each mip level *)
(* of each layer of each image.                                                  *)
EXTENDS Integers, FiniteSets, Sequences, TLC

Undefined == "UNDEF"
\* im: [depth, mips]; r: << first level, levels, first layer, layers >>
\* The slices of a 3D image count as layers; a view of the whole image covers those of its level.
TMax(a, b) == IF a > b THEN a ELSE b
Slices(im, vt, r) == IF vt = 2 /\ (r[2] = 1 \/ r[2] = im.mips)
                     THEN 0 .. (TMax(1, im.depth \div (2 ^ r[1])) - 1)
                     ELSE r[3] .. (r[3] + r[4] - 1)
Cells(id, im, vt, r) == { << id, m, y >> : m \in r[1] .. (r[1] + r[2] - 1), y \in Slices(im, vt, r) }

Track0 == [x \in {} |-> 0]
TSet(t, cells, st) == [c \in (DOMAIN t) \cup cells |-> IF c \in cells THEN st ELSE t[c]]
TMerge(t, o) == [c \in (DOMAIN t) \cup (DOMAIN o) |-> IF c \in DOMAIN t THEN t[c] ELSE o[c]]
\* the states known in some cells
Known(t, cells) == { t[c] : c \in cells \cap DOMAIN t }
=============================================================================
