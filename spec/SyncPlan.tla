------------------------------ MODULE SyncPlan -------------------------------
(* How the library is meant to synchronise: it remembers, for each part of an    *)
(* image, the state it left it in - layout, stages, accesses - and before a pass *)
(* moves the part from there to the state the pass asks for; a render pass       *)
(* leaves its attachments as the next enabled pass wants them; the action of a   *)
(* disabled pass runs right before its view is next used.                        *)
(* The image has two layers, seen whole or layer by layer.  TLC goes through all *)
(* programs of N passes (one use each) and all ways of enabling them frame by     *)
(* frame, shows on each that the design never races, never loses contents and    *)
(* always has the layout asked for, and prints it to be run on the real library. *)
EXTENDS SyncCore, Json
CONSTANTS N, Frames, Kinds, Imps, AllOn
VARIABLES prog, on, f, p, S
vars == << prog, on, f, p, S >>
Sub == {1, 2}
Views == { {1, 2}, {1}, {2} }
U(lay, st, acc, in, out) == [lay |-> lay, st |-> st, acc |-> acc, in |-> in, out |-> out]
Use(k) == CASE k = "sampled" -> U("SHADER_RO", {"FS"}, {"SH_R"}, TRUE, FALSE)
            [] k = "sampledC" -> U("SHADER_RO", {"CS"}, {"SH_R"}, TRUE, FALSE)
            [] k = "inStorage" -> U("GENERAL", {"CS"}, {"SH_R"}, TRUE, FALSE)
            [] k = "ioStorage" -> U("GENERAL", {"CS"}, {"SH_R", "SH_W"}, TRUE, TRUE)
            [] k = "outStorage" -> U("GENERAL", {"CS"}, {"SH_W"}, FALSE, TRUE)
            [] k = "inTransfer" -> U("SRC", {"TR"}, {"TR_R"}, TRUE, FALSE)
            [] k = "outTransfer" -> U("DST", {"TR"}, {"TR_W"}, FALSE, TRUE)
            [] k = "ioColour" -> U("COLOR", {"CO"}, {"CO_R", "CO_W"}, TRUE, TRUE)
            [] k = "outColour" -> U("COLOR", {"CO"}, {"CO_W"}, FALSE, TRUE)
Colour(k) == k \in {"ioColour", "outColour"}
State(k) == LET u == Use(k) IN [lay |-> u.lay, st |-> u.st, acc |-> u.acc]
Unknown == [lay |-> "UNDEF", st |-> {}, acc |-> {}]

S0 == [lay |-> [r \in Sub |-> "UNDEF"], val |-> [r \in Sub |-> "none"], iw |-> [r \in Sub |-> NoWrite], ir |-> [r \in Sub |-> {}],
       trk |-> [r \in Sub |-> Unknown], pend |-> << >>, bad |-> {}, n |-> 1]
\* one barrier on part r, from the remembered state to another
Bar(s, r, to) ==
  LET from == s.trk[r]
      ss == IF from.st = {} THEN {"TOP"} ELSE from.st
      sa == from.acc
      src == SrcScope(ss) dst == DstScope(to.st)
      lt == from.lay # to.lay
  IN IF from = to /\ from.acc \cap Writes = {} THEN s
     ELSE [s EXCEPT !.bad = @ \cup (IF from.lay \notin { "UNDEF", s.lay[r] } THEN {"layout"} ELSE {})
                              \cup (IF lt /\ ~LtSafe(s.iw[r], s.ir[r], ss, sa) THEN {"transition"} ELSE {}),
                    !.lay[r] = to.lay,
                    !.val[r] = IF from.lay = "UNDEF" /\ @ = "ok" THEN "lost" ELSE @,
                    !.iw = [q \in Sub |-> IF q = r THEN IF lt THEN LtWrite(to.st, to.acc, s.n)
                                                        ELSE Chain(MemDep(s.iw[q], ss, sa, to.st, to.acc), src, dst)
                                          ELSE Chain(s.iw[q], src, dst)],
                    !.ir = [q \in Sub |-> IF q = r /\ lt THEN {} ELSE { Chain(x, src, dst) : x \in s.ir[q] }],
                    !.trk[r] = to]
BarAll(s, V, to) == IF V = {1, 2} THEN Bar(Bar(s, 1, to), 2, to) ELSE Bar(s, CHOOSE r \in V : TRUE, to)
Access(s, V, u) ==
  LET bad == { r \in V : \/ ~SeesWrite(s.iw[r], u.st, u.acc, s.n)
                         \/ u.out /\ ~AfterReads(s.ir[r], u.st, s.n) }
  IN [s EXCEPT !.bad = @ \cup (IF bad # {} THEN {"race"} ELSE {})
                         \cup (IF \E r \in V : s.lay[r] # u.lay THEN {"layout"} ELSE {})
                         \cup (IF u.in /\ \E r \in V : s.val[r] = "lost" THEN {"lost"} ELSE {}),
               !.iw = [r \in Sub |-> IF r \in V /\ u.out THEN NewWrite(u.st, u.acc \cap Writes, s.n) ELSE @[r]],
               !.ir = [r \in Sub |-> IF r \notin V THEN @[r] ELSE IF u.out THEN {} ELSE AddRead(@[r], u.st, s.n)],
               !.val = [r \in Sub |-> IF r \in V /\ u.out THEN "ok" ELSE @[r]]]
\* a render pass leaves all of its attachment in one state
After(i) == { j \in i + 1 .. N : j \in on[f] /\ prog[i].v \cap prog[j].v # {} }
NextState(i) == IF After(i) = {} THEN State(prog[i].k)
                ELSE State(prog[CHOOSE j \in After(i) : \A h \in After(i) : j <= h].k)
Leave(s, r, to) == Bar([s EXCEPT !.trk[r] = [lay |-> "COLOR", st |-> {"CO"}, acc |-> {"CO_R", "CO_W"}]], r, to)
Fill == [lay |-> "DST", st |-> {"TR"}, acc |-> {"TR_W"}]
Implicit(s, V) == LET a == BarAll(s, V, Fill)
                      b == Access(a, V, U("DST", {"TR"}, {"TR_W"}, FALSE, TRUE))
                  IN [b EXCEPT !.n = @ + 1]
RECURSIVE Flush(_, _)
Flush(s, V) == IF \E x \in DOMAIN s.pend : s.pend[x] = V
               THEN LET x == CHOOSE x \in DOMAIN s.pend : s.pend[x] = V
                    IN Flush([Implicit(s, V) EXCEPT !.pend = SubSeq(s.pend, 1, x - 1) \o SubSeq(s.pend, x + 1, Len(s.pend))], V)
               ELSE s
Do(i) == LET P == prog[i] u == Use(P.k)
             a == Flush([S EXCEPT !.n = @ + 1], P.v)
             b == BarAll(a, P.v, State(P.k))
             c == Access(b, P.v, u)
             c1 == [c EXCEPT !.n = @ + 1]
             d == IF ~Colour(P.k) THEN c
                  ELSE IF P.v = {1, 2} THEN Leave(Leave(c1, 1, NextState(i)), 2, NextState(i))
                  ELSE Leave(c1, CHOOSE r \in P.v : TRUE, NextState(i))
         IN [d EXCEPT !.n = @ + 1]
Entry == [k : Kinds, v : Views, imp : Imps]
Init == /\ prog \in [1..N -> { e \in Entry : e.imp => Use(e.k).out }]
        /\ on \in [1..Frames -> SUBSET (1..N)] /\ (AllOn => on[1] = 1..N)
        /\ f = 1 /\ p = 1 /\ S = S0
Pass == /\ f <= Frames /\ p <= N
        /\ S' = IF p \in on[f] THEN Do(p) ELSE IF prog[p].imp THEN [S EXCEPT !.pend = Append(@, prog[p].v)] ELSE S
        /\ p' = p + 1 /\ UNCHANGED << prog, on, f >>
EndFrame == /\ f <= Frames /\ p > N /\ f' = f + 1 /\ p' = 1 /\ UNCHANGED << prog, on >>
            /\ LET s == LET R[i \in 0..Len(S.pend)] == IF i = 0 THEN S ELSE Implicit(R[i - 1], S.pend[i]) IN R[Len(S.pend)]
               IN S' = [s EXCEPT !.pend = << >>, !.iw = [r \in Sub |-> NoWrite], !.ir = [r \in Sub |-> {}]]
Next == Pass \/ EndFrame
Safe == S.bad = {}
Printed == f <= Frames \/ PrintT(ToJson([prog |-> prog, on |-> on]))
Spec == Init /\ [][Next]_vars
=============================================================================
