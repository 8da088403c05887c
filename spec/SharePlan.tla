------------------------------ MODULE SharePlan ------------------------------
(* How a resource handler and a context are shared by threads.  Each request  *)
(* takes the lock of what it looks into, looks, creates what is missing       *)
(* through the device, stores it, and lets go; a view which needs its image   *)
(* asks for it while it holds the views.  Checked in every interleaving of    *)
(* every pair of small programs: nothing is created twice, nobody is handed   *)
(* something which is not there, the requests take effect one after the      *)
(* other, and nobody waits for ever.  The programs are printed, to be         *)
(* executed by real threads.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS L0, L1         \* numbers of requests of the two threads
\* image 1 has the views 1 and 2, image 2 has none; view descriptions 1 and 2 are declared, 3 is not
Ops == { [k |-> "image", id |-> 1], [k |-> "image", id |-> 2], [k |-> "dropimage", id |-> 2],
         [k |-> "view", id |-> 1], [k |-> "view", id |-> 2], [k |-> "dropview", id |-> 1],
         [k |-> "newview", id |-> 2], [k |-> "newview", id |-> 3], [k |-> "newimage", id |-> 0],
         [k |-> "sampler", id |-> 0], [k |-> "dropsampler", id |-> 0], [k |-> "quad", id |-> 0], [k |-> "dropquad", id |-> 0],
         [k |-> "reg", id |-> 1], [k |-> "unreg", id |-> 1], [k |-> "rename", id |-> 1] }
Lock(o) == CASE o.k \in {"image", "dropimage", "newimage"} -> "images"
             [] o.k \in {"view", "dropview", "newview"} -> "views"
             [] o.k \in {"sampler", "dropsampler"} -> "samplers"
             [] o.k \in {"quad", "dropquad"} -> "buffers"
             [] OTHER -> "registry"
Locks == {"images", "views", "samplers", "buffers", "registry"}
T == {0, 1}
Progs(n) == UNION { [1..k -> Ops] : k \in 1..n }

VARIABLES prog, n, pc, held, img, vw, desc, made, got
vars == << prog, n, pc, held, img, vw, desc, made, got >>
\* n: request of each thread; pc: where in it; held: holder of each lock, or -1
\* img, vw: device objects known for each image and view (0: none, -1: being created); desc: identifiers of the descriptions
\* made: creations of each kind not undone; got: what the last request of each thread was given
Init == /\ prog \in { p \in [T -> Progs(IF L0 > L1 THEN L0 ELSE L1)] : Len(p[0]) <= L0 /\ Len(p[1]) <= L1 }
        /\ n = [t \in T |-> 1] /\ pc = [t \in T |-> "ask"] /\ held = [x \in Locks |-> -1]
        /\ img = [i \in 1..2 |-> 0] /\ vw = [v \in 1..2 |-> 0] /\ desc = [d \in 1..3 |-> IF d = 3 THEN 0 ELSE d]
        /\ made = [i \in 1..2 |-> 0] /\ got = [t \in T |-> 1]
Busy(t) == n[t] <= Len(prog[t])
Cur(t) == prog[t][n[t]]
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Take(t, x) == held[x] = -1 /\ held' = [held EXCEPT ![x] = t]
Leave(t, xs) == held' = [x \in Locks |-> IF x \in xs THEN -1 ELSE held[x]]
End(t, xs) == /\ n' = [n EXCEPT ![t] = @ + 1] /\ Go(t, "ask") /\ Leave(t, xs)
Ask(t) == /\ pc[t] = "ask" /\ Take(t, Lock(Cur(t))) /\ Go(t, Cur(t).k) /\ UNCHANGED << prog, n, img, vw, desc, made, got >>
\* the entry of what is missing is made before the object itself
Image(t) == /\ pc[t] = "image"
            /\ IF img[Cur(t).id] = 0 THEN img' = [img EXCEPT ![Cur(t).id] = -1] /\ Go(t, "makeimage") /\ UNCHANGED << n, held, got >>
               ELSE got' = [got EXCEPT ![t] = img[Cur(t).id]] /\ End(t, {"images"}) /\ UNCHANGED img
            /\ UNCHANGED << prog, vw, desc, made >>
MakeImage(t) == /\ pc[t] = "makeimage" /\ made' = [made EXCEPT ![Cur(t).id] = @ + 1] /\ img' = [img EXCEPT ![Cur(t).id] = 1]
                /\ got' = [got EXCEPT ![t] = 1] /\ End(t, {"images"}) /\ UNCHANGED << prog, vw, desc >>
View(t) == /\ pc[t] = "view"
           /\ IF vw[Cur(t).id] = 0 THEN vw' = [vw EXCEPT ![Cur(t).id] = -1] /\ Go(t, "viewlock") /\ UNCHANGED << n, held, got >>
              ELSE got' = [got EXCEPT ![t] = vw[Cur(t).id]] /\ End(t, {"views"}) /\ UNCHANGED vw
           /\ UNCHANGED << prog, img, desc, made >>
ViewLock(t) == /\ pc[t] = "viewlock" /\ Take(t, "images") /\ Go(t, "viewimage") /\ UNCHANGED << prog, n, img, vw, desc, made, got >>
ViewImage(t) == /\ pc[t] = "viewimage"
                /\ IF img[1] = 0 THEN img' = [img EXCEPT ![1] = -1] /\ Go(t, "viewmakes") /\ UNCHANGED held
                   ELSE Go(t, "makeview") /\ Leave(t, {"images"}) /\ UNCHANGED img
                /\ UNCHANGED << prog, n, vw, desc, made, got >>
ViewMakes(t) == /\ pc[t] = "viewmakes" /\ made' = [made EXCEPT ![1] = @ + 1] /\ img' = [img EXCEPT ![1] = 1] /\ Go(t, "makeview") /\ Leave(t, {"images"})
                /\ UNCHANGED << prog, n, vw, desc, got >>
MakeView(t) == /\ pc[t] = "makeview" /\ vw' = [vw EXCEPT ![Cur(t).id] = 1] /\ got' = [got EXCEPT ![t] = img[1]] /\ End(t, {"views"})
               /\ UNCHANGED << prog, img, desc, made >>
NewView(t) == /\ pc[t] = "newview" /\ desc' = [desc EXCEPT ![Cur(t).id] = IF @ = 0 THEN 3 ELSE @] /\ End(t, {"views"}) /\ UNCHANGED << prog, img, vw, made, got >>
DropImage(t) == /\ pc[t] = "dropimage" /\ made' = [made EXCEPT ![2] = IF img[2] = 1 THEN @ - 1 ELSE @] /\ img' = [img EXCEPT ![2] = 0] /\ End(t, {"images"})
                /\ UNCHANGED << prog, vw, desc, got >>
DropView(t) == /\ pc[t] = "dropview" /\ vw' = [vw EXCEPT ![Cur(t).id] = 0] /\ End(t, {"views"}) /\ UNCHANGED << prog, img, desc, made, got >>
Else(t) == /\ pc[t] \in {"newimage", "sampler", "dropsampler", "quad", "dropquad", "reg", "unreg", "rename"} /\ End(t, {Lock(Cur(t))})
           /\ UNCHANGED << prog, img, vw, desc, made, got >>
Step(t) == Busy(t) /\ (Ask(t) \/ Image(t) \/ MakeImage(t) \/ View(t) \/ ViewLock(t) \/ ViewImage(t) \/ ViewMakes(t) \/ MakeView(t) \/ NewView(t) \/ DropImage(t) \/ DropView(t) \/ Else(t))
Done == \A t \in T : ~Busy(t)
Next == (\E t \in T : Step(t)) \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
Started == \E t \in T : n[t] > 1 \/ pc[t] # "ask"
Printed == Started \/ PrintT(ToJson(<< prog[0], prog[1] >>))
OneEach == \A i \in 1..2 : made[i] \in {0, 1} /\ (img[i] = 1 => made[i] = 1) /\ (img[i] = 0 => made[i] = 0)
GivenWhatIs == \A t \in T : got[t] = 1
ViewHasImage == \A v \in 1..2 : vw[v] = 1 => img[1] = 1
=============================================================================
