------------------------------ MODULE CacheGen -------------------------------
(* All histories of K requests to the resource caches of one context, about one   *)
(* image, two views of it and a sampler: printed, to be made to the real caches.  *)
(* As designed, what exists is shared by all the caches of the context, belongs   *)
(* to the one which created it, and goes with it.  Checked on the way: a view is  *)
(* never left without its image, and dropping the caches leaves nothing.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Caches, Views, Smp
VARIABLES up, img, vw, smp, hist
vars == << up, img, vw, smp, hist >>
\* up: caches alive; img: owner of the image or 0; vw: owner of each view or 0; smp: caches having created the sampler
Init == up = Caches /\ img = 0 /\ vw = [v \in Views |-> 0] /\ smp = {} /\ hist = << >>
Log(o, c, v) == hist' = Append(hist, [o |-> o, c |-> c, v |-> v])
CImage(c) == img' = (IF img = 0 THEN c ELSE img) /\ UNCHANGED << up, vw, smp >> /\ Log("cimage", c, 0)
CView(c, v) == /\ IF vw[v] = 0 THEN vw' = [vw EXCEPT ![v] = c] /\ img' = (IF img = 0 THEN c ELSE img)
                  ELSE UNCHANGED << vw, img >>
               /\ UNCHANGED << up, smp >> /\ Log("cview", c, v)
DView(c, v) == /\ vw' = [vw EXCEPT ![v] = IF @ = c THEN 0 ELSE @] /\ UNCHANGED << up, img, smp >> /\ Log("dview", c, v)
DImage(c) == /\ \A v \in Views : vw[v] = 0    \* the user only destroys images no view is left of
             /\ img' = (IF img = c THEN 0 ELSE img) /\ UNCHANGED << up, vw, smp >> /\ Log("dimage", c, 0)
Sampler(c) == Smp /\ smp' = smp \cup {c} /\ UNCHANGED << up, img, vw >> /\ Log("csampler", c, 0)
\* a cache whose image another one still has views of stays
Drop(c) == /\ img = c => \A v \in Views : vw[v] \in {0, c}
           /\ up' = up \ {c} /\ img' = (IF img = c THEN 0 ELSE img) /\ vw' = [v \in Views |-> IF vw[v] = c THEN 0 ELSE vw[v]]
           /\ smp' = smp \ {c} /\ Log("dropcache", c, 0)
Ask(c) == CImage(c) \/ DImage(c) \/ Sampler(c) \/ (\E v \in Views : CView(c, v) \/ DView(c, v)) \/ Drop(c)
\* (the first request goes to the first cache: they are alike)
Next == Len(hist) < K /\ \E c \in up : (hist = << >> => c = 1) /\ Ask(c)
NoOrphan == (\E v \in Views : vw[v] # 0) => img # 0
OwnersAlive == (img = 0 \/ img \in up) /\ (\A v \in Views : vw[v] = 0 \/ vw[v] \in up) /\ smp \subseteq up
NothingLeft == up = {} => img = 0 /\ smp = {} /\ \A v \in Views : vw[v] = 0
\* the caches can always be dropped in some order
CanDrop == up = {} \/ (\E c \in up : img = c => \A v \in Views : vw[v] \in {0, c})
Printed == (Len(hist) < K /\ up # {}) \/ PrintT(ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
