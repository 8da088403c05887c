------------------------------- MODULE LifeGen -------------------------------
(* All histories of K operations on a graph of a quad pass and a resettable        *)
(* compute pass: running, recording, enabling the quad, replacing the pipeline of  *)
(* either, destroying the graph at last.  Printed, to be performed on the library. *)
(* As designed, what is replaced is destroyed once the frame which used it last is *)
(* known to be over: checked on the way.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K
VARIABLES en, cur, fresh, waiting, flight, gone, used, hist
vars == << en, cur, fresh, waiting, flight, gone, used, hist >>
\* pipelines are numbered; cur: of each pass (0: none); waiting: replaced, not destroyed; flight: in use by the submission not known to be over
Init == en = TRUE /\ cur = << 0, 0 >> /\ fresh = 1 /\ waiting = {} /\ flight = {} /\ gone = {} /\ used = TRUE /\ hist = << >>
\* a frame waits for the previous one, makes the missing pipelines, destroys what was replaced before
Frame(sub) == LET need == { p \in {1, 2} : (p = 1 => en) /\ cur[p] = 0 }
                  c == [p \in {1, 2} |-> IF p \in need THEN fresh + p ELSE cur[p]]
              IN /\ cur' = c /\ fresh' = fresh + 3
                 /\ flight' = IF sub THEN { c[p] : p \in { p \in {1, 2} : p = 1 => en } } ELSE {}
                 /\ gone' = IF sub THEN gone \cup waiting ELSE gone
                 /\ waiting' = IF sub THEN {} ELSE waiting
                 /\ UNCHANGED << en, used >>
Reset(p) == /\ cur[p] # 0 /\ waiting' = waiting \cup { cur[p] } /\ cur' = [cur EXCEPT ![p] = 0] /\ UNCHANGED << en, fresh, flight, gone, used >>
Toggle == en' = ~en /\ UNCHANGED << cur, fresh, waiting, flight, gone, used >>
Do(o) == CASE o = "run" -> Frame(TRUE) [] o = "record" -> Frame(FALSE) [] o = "reset1" -> Reset(1) [] o = "reset2" -> Reset(2) [] o = "toggle" -> Toggle
Next == Len(hist) < K /\ \E o \in { "run", "record", "reset1", "reset2", "toggle" } : Do(o) /\ hist' = Append(hist, o)
NotInFlight == flight \cap gone = {}
NotCurrent == \A p \in {1, 2} : cur[p] \notin gone \cup waiting
Printed == Len(hist) < K \/ PrintT(ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
