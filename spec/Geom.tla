-------------------------------- MODULE Geom --------------------------------
(* The full-screen triangle: its data, in thousandths.                       *)
EXTENDS Integers, Sequences, FiniteSets

\* corners of the triangle which covers the viewport
Corners == { << -1000, -3000 >>, << -1000, 1000 >>, << 3000, 1000 >> }
Coord(c, inv) == IF inv = 1 THEN 1000 - ((c + 1000) \div 2) ELSE (c + 1000) \div 2
Vertex(d, i) == [k \in 1..4 |-> d[4 * (i - 1) + k]]
\* every position of the viewport lies in the triangle and the coordinates are an affine function of it
QuadData(d, tex, u, v) ==
  /\ Len(d) >= 12
  /\ { << Vertex(d, i)[1], Vertex(d, i)[2] >> : i \in 1..3 } = Corners
  /\ tex = 1 => \A i \in 1..3 : Vertex(d, i)[3] = Coord(Vertex(d, i)[1], u) /\ Vertex(d, i)[4] = Coord(Vertex(d, i)[2], v)
QuadBinds == << << 0, 16, 0 >> >>
QuadAttrs(tex) == {<< 0, 0, 103, 0 >>} \cup (IF tex = 1 THEN {<< 1, 0, 103, 8 >>} ELSE {})
=============================================================================
