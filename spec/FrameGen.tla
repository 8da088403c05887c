------------------------------ MODULE FrameGen -------------------------------
(* All histories of K operations on a graph of two passes - the first one writes  *)
(* a view, has an implicit action on it and two variants; the second one uses the *)
(* view - : recording, running, enabling, changing variant, reading the timers.   *)
(* Printed, to be performed on the real graph.                                    *)
(* The design of the timers is checked on the way: two pairs of queries taken in  *)
(* turn by recordings, a pair being read once when the recording which filled it  *)
(* was the last one and was submitted.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Ops
VARIABLES en, idx, tm, hist, ok
\* a timer: which pair is in front; of each pair, what the device last wrote there and the number of the recording it holds
T0 == [front |-> 1, rec |-> << 0, 0 >>, dev |-> << 0, 0 >>, started |-> << FALSE, FALSE >>]
Init == en = TRUE /\ idx = 0 /\ tm = [p \in {0, 1, 2} |-> T0] /\ hist = << >> /\ ok = TRUE
Frame(t, n, sub) == LET k == 3 - t.front
                    IN [t EXCEPT !.front = k, !.rec[k] = n, !.dev[k] = IF sub THEN n ELSE @, !.started[k] = IF sub THEN TRUE ELSE @]
Go(sub) == tm' = [p \in DOMAIN tm |-> IF p = 1 /\ ~en THEN tm[p] ELSE Frame(tm[p], Len(hist) + 1, sub)] /\ UNCHANGED << en, idx, ok >>
Read(p) == LET t == tm[p] IN
           /\ ok' = (ok /\ (t.started[t.front] => t.dev[t.front] # 0))
           /\ tm' = [tm EXCEPT ![p].started[t.front] = FALSE] /\ UNCHANGED << en, idx >>
Do(o) == \/ o = "run" /\ Go(TRUE)
         \/ o = "record" /\ Go(FALSE)
         \/ o = "toggle" /\ en' = ~en /\ UNCHANGED << idx, tm, ok >>
         \/ o = "other" /\ idx' = 1 - idx /\ UNCHANGED << en, tm, ok >>
         \/ o = "time0" /\ Read(0)
         \/ o = "time1" /\ Read(1)
         \/ o = "time2" /\ Read(2)
Next == Len(hist) < K /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
\* what is read was written by the device, and by the last recording if that one was submitted
ReadsWritten == ok
Fresh == \A p \in DOMAIN tm : LET t == tm[p] IN t.started[t.front] => t.dev[t.front] # 0
Printed == Len(hist) < K \/ PrintT(ToJson(hist))
Spec == Init /\ [][Next]_<< en, idx, tm, hist, ok >>
=============================================================================
