------------------------------ MODULE SignalCore ------------------------------
(* What a signal owes its slots.                                                *)
(*                                                                              *)
(* A slot is one function handed to one `connect`.  It belongs to one signal and *)
(* lives until the connection that holds it lets it go or the signal dies; a     *)
(* connection holds at most one slot.  An emission is a frame on a stack, since  *)
(* slots may do anything while they are called, emitting included.               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

\* w: [slot |-> live slot -> signal, conn |-> connection -> slot or 0, stack |-> emissions under way]
World0 == [slot |-> [x \in {} |-> 0], conn |-> [x \in {} |-> 0], stack |-> << >>]

SPut(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE f @@ (k :> v)
SDrop(f, ks) == [x \in DOMAIN f \ ks |-> f[x]]
Held(w, c) == IF c \in DOMAIN w.conn THEN w.conn[c] ELSE 0
Live(w, s) == s \in DOMAIN w.slot
Valid(w, c) == Live(w, Held(w, c))
SlotsOf(w, sig) == { s \in DOMAIN w.slot : w.slot[s] = sig }

Release(w, c) == [w EXCEPT !.slot = SDrop(@, { Held(w, c) }), !.conn = SPut(@, c, 0)]
Connect(w, c, sig, s) == LET v == Release(w, c) IN [v EXCEPT !.slot = SPut(@, s, sig), !.conn = SPut(@, c, s)]
Move(w, c, from) == IF c = from THEN w
                    ELSE LET v == Release(w, c) IN [v EXCEPT !.conn = SPut(SPut(@, c, w.conn[from]), from, 0)]
Kill(w, sig) == [w EXCEPT !.slot = SDrop(@, SlotsOf(w, sig))]
Emit(w, sig, arg) == [w EXCEPT !.stack = Append(@, [sig |-> sig, arg |-> arg, due |-> SlotsOf(w, sig), done |-> {}])]
Top(w) == w.stack[Len(w.stack)]
MayCall(w, s) == w.stack # << >> /\ Live(w, s) /\ w.slot[s] = Top(w).sig /\ s \notin Top(w).done
Call(w, s) == IF w.stack = << >> THEN w ELSE [w EXCEPT !.stack[Len(w.stack)].done = @ \cup { s }]
\* every slot that was connected when the emission started and still is has been called
AllCalled(w) == { s \in Top(w).due : Live(w, s) } \subseteq Top(w).done
Emitted(w) == [w EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
=============================================================================
