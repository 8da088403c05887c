------------------------------- MODULE Faults --------------------------------
(* C33: Vulkan calls which fail.  Everything Objects.tla asks for holds       *)
(* across a failure, and on top of it: the operation says so, does not go on, *)
(* leaves nothing behind, and works when it is tried again.                    *)
EXTENDS Objects

VARIABLE flt       \* the operation under way: [on, failed (calls), before (live objects)]
Calm == [on |-> FALSE, op |-> "", failed |-> << >>, before |-> {}]

Try == /\ Is("try") /\ NoReport
       /\ flt' = [on |-> TRUE, op |-> Ev.op, failed |-> << >>, before |-> Live]
       /\ UNCHANGED << sc, ovars >>
Failed == /\ Is("failed")
          /\ Report(<< << "C33.stops", flt.failed = << >>, << flt, Ev.call >> >> >>)
          /\ flt' = [flt EXCEPT !.failed = Append(@, Ev.call)]
          /\ UNCHANGED << sc, ovars >>
\* what was created on the way to the failure of a compilation has no owner
Tried == /\ Is("tried")
         /\ Report(IF flt.failed # << >>
                   THEN << << "C33.surfaces", ~Ev.ok, << flt.op, flt.failed >> >> >>
                        \o (IF flt.op = "compile" THEN << << "C33.undone", Live \subseteq flt.before, << flt.failed, { << h, obj[h].k >> : h \in Live \ flt.before } >> >> >> ELSE << >>)
                   ELSE << << "C33.works", Ev.ok, << flt.op >> >> >>)
         /\ flt' = Calm
         /\ UNCHANGED << sc, ovars >>

\* work which must not go on once a call has failed
GoesOn == Is("new") \/ Is("upd") \/ Is("rec") \/ Is("cmd") \/ Is("submit") \/ Is("mem") \/ Is("flush")
Other == /\ Step
         /\ flt' = [flt EXCEPT !.failed = IF GoesOn /\ @ # << >> /\ @[Len(@)] # "went on" THEN Append(@, "went on") ELSE @]

FInit == Init /\ flt = Calm
FStep == Try \/ Failed \/ Tried \/ Other
FNext == \/ FStep /\ l' = l + 1
         \/ Finish /\ UNCHANGED << sc, viol, ovars, flt >>
FSpec == FInit /\ [][FNext]_<< l, sc, viol, ovars, flt >>
=============================================================================
