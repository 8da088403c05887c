----------------------------- MODULE StructCore ------------------------------
(* What a graph of passes says about the flow of data between them: which pass  *)
(* hands which resource over to which other pass.                               *)
EXTENDS TrackCore, FiniteSetsExt

\* A use of a resource: a view, or a buffer and a range of it.
\*   [res |-> "v", lid, im (image: [id, depth, mips]), fmt, asp, vt, r]
\*   [res |-> "b", buf, off, size]      (size -1: up to the end)
UCells(u) == Cells(u.im.id, u.im, u.vt, u.r)
UEnd(u) == IF u.size = -1 THEN 1000000 ELSE u.off + u.size
Touching(a, b) ==
  IF a.res # b.res THEN FALSE
  ELSE IF a.res = "v" THEN a.im.id = b.im.id /\ UCells(a) \cap UCells(b) # {}
  ELSE a.buf = b.buf
\* b reads what a wrote as a whole, or one level of it
Whole(a, b) == a.fmt = b.fmt /\ a.asp \cap b.asp # {} /\ a.r[1] = b.r[1] /\ a.r[2] = b.r[2] /\ UCells(a) = UCells(b)
OneLevel(a, b) == b.r[2] = 1 /\ UCells(b) \subseteq UCells(a) /\ a.asp \cap b.asp # {}
Feeds(a, b) ==
  IF a.res # b.res THEN FALSE
  ELSE IF a.res = "v" THEN a.im.id = b.im.id /\ (Whole(a, b) \/ OneLevel(a, b))
  ELSE a.buf = b.buf /\ a.off < UEnd(b) /\ b.off < UEnd(a)

\* dep: pass -> the passes it depends on; clear: the passes the data may flow through untouched
RECURSIVE Back(_, _, _)
Back(dep, clear, S) ==
  LET T == S \cup UNION { dep[p] : p \in S \cap clear }
  IN  IF T = S THEN S ELSE Back(dep, clear, T)
\* passes c depends on, directly or through passes of `clear'
Before(dep, clear, c) == Back(dep, clear, dep[c])
Ancestors(dep, c) == Back(dep, DOMAIN dep, dep[c])

\* outs, ins: pass -> its writing, reading uses
\* x is about the very data of u: depth and stencil of an image are different data
SameData(u, x) == IF ~Touching(u, x) THEN FALSE ELSE u.res # "v" \/ u.asp \cap x.asp # {}
Unused(outs, ins, u) == { p \in DOMAIN outs : \A x \in outs[p] \cup ins[p] : ~SameData(u, x) }
\* hand-overs which the compiled graph has to expose: << producer, consumer, written use, read use >>
Due(dep, outs, ins) ==
  UNION { UNION { UNION { { << a, c, w, r >> : r \in { r \in ins[c] : Feeds(w, r) /\ a \in Before(dep, Unused(outs, ins, w), c) } }
                          : w \in outs[a] } : a \in DOMAIN dep \ {c} } : c \in DOMAIN dep }
\* hand-overs which it may expose
Sound(dep, outs, ins, a, c, w, r) ==
  a # c /\ a \in Ancestors(dep, c) /\ w \in outs[a] /\ r \in ins[c] /\ Touching(w, r)
=============================================================================
