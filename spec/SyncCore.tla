------------------------------ MODULE SyncCore ------------------------------
(* Synchronisation and image layout rules of the device, as pure operators    *)
(* over one state record.  Shared by the conformance specification Sync.tla   *)
(* and by the design model SyncPlan.tla.                                      *)
(*                                                                            *)
(* A resource (image subresource or buffer segment) remembers its last write  *)
(* and the reads made since:                                                  *)
(*   w = [k, st, acc, av, vis, ex, in]                                        *)
(*     k    "none" | "w" (access) | "lt" (layout transition)                  *)
(*     st   stages which made it; acc  access kinds                           *)
(*     av   made available                                                    *)
(*     vis  { << stage, access >> } it was made visible to                    *)
(*     ex   stages in which later commands are ordered after it               *)
(*     in   which pass made it                                                *)
(*   rd = set of [st, ex, in]                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Gfx == << "TOP", "DI", "VI", "VS", "TC", "TE", "GS", "EF", "FS", "LF", "CO", "BOT" >>
Cmp == << "TOP", "DI", "CS", "BOT" >>
Xfr == << "TOP", "TR", "BOT" >>
Hst == << "TOP", "HOST", "BOT" >>
Pipes == { Gfx, Cmp, Xfr, Hst }
AllStages == UNION { { p[i] : i \in DOMAIN p } : p \in Pipes }
GfxStages == { Gfx[i] : i \in DOMAIN Gfx }

EarlierOf == [s \in AllStages |-> UNION { { p[j] : j \in { j \in DOMAIN p : \E i \in DOMAIN p : p[i] = s /\ j <= i } } : p \in Pipes }]
LaterOf   == [s \in AllStages |-> UNION { { p[j] : j \in { j \in DOMAIN p : \E i \in DOMAIN p : p[i] = s /\ j >= i } } : p \in Pipes }]

Stg(S) == IF "ALLC" \in S THEN AllStages
          ELSE IF "ALLG" \in S THEN (S \ {"ALLG"}) \cup GfxStages ELSE S
SrcScope(S) == UNION { EarlierOf[s] : s \in Stg(S) }
DstScope(S) == UNION { LaterOf[s] : s \in Stg(S) }

Reads  == { "INDIRECT", "INDEX", "VATTR", "UNIFORM", "INPUT", "SH_R", "CO_R", "DS_R", "TR_R", "HO_R" }
Writes == { "SH_W", "CO_W", "DS_W", "TR_W", "HO_W" }
Acc(A) == (A \ {"ME_R", "ME_W"}) \cup (IF "ME_R" \in A THEN Reads ELSE {}) \cup (IF "ME_W" \in A THEN Writes ELSE {})

NoWrite == [k |-> "none", st |-> {}, acc |-> {}, av |-> TRUE, vis |-> {}, ex |-> {}, in |-> 0]

\* a (a write or a read) happens before what a dependency with this source scope releases
InScope(a, src) == (a.st # {} /\ a.st \subseteq src) \/ a.ex \cap src # {}
Chain(a, src, dst) == IF InScope(a, src) THEN [a EXCEPT !.ex = @ \cup dst] ELSE a

\* Memory part of a dependency on one resource's last write.
Avail(w, ss, sa) == w.av \/ (w.st # {} /\ w.st \subseteq Stg(ss) /\ w.acc \subseteq Acc(sa))
MemDep(w, ss, sa, ds, da) ==
  IF w.k = "none" \/ ~InScope(w, SrcScope(ss)) THEN w
  ELSE LET av == Avail(w, ss, sa)
       IN  [w EXCEPT !.av = av, !.vis = IF av THEN @ \cup (Stg(ds) \X Acc(da)) ELSE @]

\* May a layout transition inside this dependency touch the resource ?
LtSafe(w, rd, ss, sa) ==
  /\ w.k = "none" \/ (InScope(w, SrcScope(ss)) /\ Avail(w, ss, sa))
  /\ \A x \in rd : InScope(x, SrcScope(ss))
LtWrite(ds, da, n) == [k |-> "lt", st |-> {}, acc |-> {}, av |-> TRUE, vis |-> Stg(ds) \X Acc(da), ex |-> DstScope(ds), in |-> n]

\* May commands access the resource in stages st with accesses acc ?
SeesWrite(w, st, acc, n) ==
  \/ w.k = "none"
  \/ w.k = "w" /\ w.in = n
  \/ /\ st \subseteq w.ex
     /\ w.av
     /\ (st \X acc) \subseteq w.vis
AfterReads(rd, st, n) == \A x \in rd : x.in = n \/ st \subseteq x.ex

AddRead(rd, st, n) == { x \in rd : x.st # st } \cup { [st |-> st, ex |-> {}, in |-> n] }
NewWrite(st, acc, n) == [k |-> "w", st |-> st, acc |-> acc, av |-> FALSE, vis |-> {}, ex |-> {}, in |-> n]
=============================================================================
