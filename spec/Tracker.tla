------------------------------- MODULE Tracker -------------------------------
(* Conformance of recorded histories of layout trackers.                       *)
EXTENDS Mon, TrackCore
VARIABLES im,   \* image -> [depth, mips]
          tr    \* tracker -> what it knows

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e
Rule(n, ok, d) == << << n, ok, d >> >>
Init == /\ l = 1 /\ sc = 0 /\ viol = << >> /\ im = EmptyFn /\ tr = EmptyFn /\ CovInit
Scenario == Is("scen") /\ sc' = Ev.s /\ tr' = EmptyFn /\ im' = [k \in { Ev.images[n].id : n \in DOMAIN Ev.images } |->
                                                                   LET x == CHOOSE x \in SetOf(Ev.images) : x.id = k IN [depth |-> x.depth, mips |-> x.mips]]
            /\ NoReport
New == Is("trk") /\ tr' = Put(tr, Ev.id, Track0) /\ UNCHANGED << sc, im >> /\ NoReport
C == Cells(Ev.img, im[Ev.img], Ev.vt, Ev.r)
TState == [lay |-> Ev.st.lay, acc |-> SetOf(Ev.st.acc), st |-> SetOf(Ev.st.st)]
SetL == Is("tset") /\ tr' = [tr EXCEPT ![Ev.id] = TSet(@, C, TState)] /\ UNCHANGED << sc, im >> /\ NoReport
Add == Is("tadd") /\ tr' = [tr EXCEPT ![Ev.id] = TMerge(@, tr[Ev.from])] /\ UNCHANGED << sc, im >> /\ NoReport
Copy == Is("tcopy") /\ tr' = Put(tr, Ev.id, tr[Ev.from]) /\ UNCHANGED << sc, im >> /\ NoReport
Ask == /\ Is("tget") /\ UNCHANGED << sc, im, tr >>
       /\ LET t == tr[Ev.id]
              k == Known(t, C)
          IN Report(CASE k = {} -> Rule("C25.untouched", TState.lay = Undefined, << Ev >>)
                      [] Cardinality(k) = 1 /\ C \subseteq DOMAIN t -> Rule("C25.last-update", { TState } = k, << Ev, k >>)
                      [] Cardinality(k) = 1 -> Rule("C25.partly-known", TState.lay = Undefined \/ TState \in k, << Ev, k >>)
                      [] OTHER -> Rule("C25.one-of-them", TState.lay \in { x.lay : x \in k } \cup (IF C \subseteq DOMAIN t THEN {} ELSE { Undefined }), << Ev, k >>))
Step == Scenario \/ New \/ SetL \/ Add \/ Copy \/ Ask
Next == \/ Step /\ l' = l + 1
        \/ Finish /\ UNCHANGED << sc, viol, im, tr >>
Spec == Init /\ [][Next]_<< l, sc, viol, im, tr >>
=============================================================================
