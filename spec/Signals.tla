------------------------------- MODULE Signals -------------------------------
(* Conformance of recorded histories of signals and connections.               *)
EXTENDS Mon, SignalCore

VARIABLE w

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e
Rule(n, ok, d) == << << n, ok, d >> >>
Init == /\ l = 1 /\ sc = 0 /\ viol = << >> /\ w = World0 /\ CovInit

Scenario == Is("scen") /\ sc' = Ev.s /\ w' = World0 /\ NoReport
Sig == Is("sig") /\ UNCHANGED << sc, w >> /\ NoReport
Conn == /\ Is("connect") /\ w' = Connect(w, Ev.c, Ev.sig, Ev.slot) /\ UNCHANGED sc
        /\ Report(Rule("C18.valid", Ev.valid, << Ev.c >>))
Disc == /\ Is("disconnect") /\ w' = Release(w, Ev.c) /\ UNCHANGED sc
        /\ Report(Rule("C18.valid", ~Ev.valid, << Ev.c >>))
Del == /\ Is("condel") /\ w' = Release(w, Ev.c) /\ UNCHANGED sc /\ NoReport
Mov == /\ Is("conmove") /\ w' = Move(w, Ev.c, Ev.from) /\ UNCHANGED sc
       /\ Report(Rule("C18.valid", Ev.valid = Valid(w', Ev.c) /\ Ev.fromValid = Valid(w', Ev.from), << Ev >>))
Ask == /\ Is("valid") /\ UNCHANGED << sc, w >>
       /\ Report(Rule("C18.valid", Ev.valid = Valid(w, Ev.c), << Ev >>))
Die == /\ Is("sigdel") /\ w' = Kill(w, Ev.id) /\ UNCHANGED sc /\ NoReport
Emi == /\ Is("emit") /\ w' = Emit(w, Ev.sig, Ev.arg) /\ UNCHANGED sc /\ NoReport
Cal == /\ Is("called") /\ w' = Call(w, Ev.slot) /\ UNCHANGED sc
       /\ Report(Rule("C18.connected", w.stack # << >> /\ Live(w, Ev.slot) /\ w.slot[Ev.slot] = Top(w).sig, << Ev.slot, w >>)
                 \o Rule("C18.once", w.stack # << >> /\ Ev.slot \notin Top(w).done, << Ev.slot, w >>)
                 \o Rule("C18.argument", w.stack # << >> /\ Ev.arg = Top(w).arg, << Ev, w >>))
Ret == /\ Is("emitted") /\ w' = Emitted(w) /\ UNCHANGED sc
       /\ Report(Rule("C18.all-called", AllCalled(w), << w >>))
Step == Scenario \/ Sig \/ Conn \/ Disc \/ Del \/ Mov \/ Ask \/ Die \/ Emi \/ Cal \/ Ret
Next == \/ Step /\ l' = l + 1
        \/ Finish /\ UNCHANGED << sc, viol, w >>
Spec == Init /\ [][Next]_<< l, sc, viol, w >>
=============================================================================
