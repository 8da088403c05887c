-------------------------------- MODULE Share --------------------------------
(* C34: requests made by several threads to a resource handler and a context. *)
(* What is recorded is the start and the end of each request, with what it was *)
(* given, and the device calls in between.  The specification keeps the set of *)
(* all the states the handler can be in: each request takes effect at one      *)
(* moment between its start and its end (a request under way may have taken    *)
(* effect or not).  When no state is left which explains an answer, requests   *)
(* did not take effect one after the other.                                    *)
EXTENDS Mon

VARIABLES pend,     \* thread -> request under way, with the answer it will get
          confs,    \* [st: state, done: threads whose request has taken effect]
          alive     \* device objects created and not destroyed
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e
svars == << pend, confs, alive >>
Nothing == [ids |-> {}, vws |-> EmptyFn, img |-> EmptyFn, vi |-> EmptyFn, smp |-> {}, quad |-> {}, reg |-> EmptyFn]

RangeOf(f) == { f[x] : x \in DOMAIN f }
\* whether a request may take effect in a state, with the answer it was given
May(st, o) ==
  CASE o.k = "newimage" -> \A i \in st.ids : i[1] # o.h /\ i[2] # o.x
    [] o.k = "newview" -> IF o.key \in DOMAIN st.vws THEN st.vws[o.key] = << o.h, o.x >>
                          ELSE \A v \in RangeOf(st.vws) : v[1] # o.h /\ v[2] # o.x
    [] o.k = "image" -> IF o.id \in DOMAIN st.img THEN o.h = st.img[o.id] /\ o.x = 0 /\ o.mi = 0
                        ELSE o.x = 1 /\ o.h = o.mi /\ o.h # 0
    [] o.k = "view" -> IF o.id \in DOMAIN st.vi THEN o.h = st.vi[o.id] /\ o.x = 0 /\ o.mi = 0 /\ o.mv = 0
                       ELSE o.x = 1 /\ o.h = o.mv /\ o.h # 0 /\ (IF o.im \in DOMAIN st.img THEN o.mi = 0 /\ o.vof = st.img[o.im] ELSE o.mi # 0 /\ o.vof = o.mi)
    [] o.k = "dropimage" -> SetOf(o.dels) = (IF o.id \in DOMAIN st.img THEN { st.img[o.id] } ELSE {})
    [] o.k = "dropview" -> SetOf(o.dels) = (IF o.id \in DOMAIN st.vi THEN { st.vi[o.id] } ELSE {})
    [] o.k = "sampler" -> o.h \notin st.smp
    [] o.k = "dropsampler" -> o.h = 0 \/ (o.h \in st.smp /\ SetOf(o.dels) = { o.h })
    [] o.k = "quad" -> \A q \in st.quad : q[1] # o.h /\ q[2] # o.x
    [] o.k = "dropquad" -> o.h = 0 \/ ((\E q \in st.quad : q[1] = o.h) /\ SetOf(o.dels) = { o.h })
    [] OTHER -> TRUE
After(st, o) ==
  CASE o.k = "newimage" -> [st EXCEPT !.ids = @ \cup { << o.h, o.x >> }]
    [] o.k = "newview" -> [st EXCEPT !.vws = Put(@, o.key, << o.h, o.x >>)]
    [] o.k = "image" -> [st EXCEPT !.img = Put(@, o.id, o.h)]
    [] o.k = "view" -> [st EXCEPT !.vi = Put(@, o.id, o.h), !.img = IF o.mi # 0 THEN Put(@, o.im, o.mi) ELSE @]
    [] o.k = "dropimage" -> [st EXCEPT !.img = Drop(@, {o.id})]
    [] o.k = "dropview" -> [st EXCEPT !.vi = Drop(@, {o.id})]
    [] o.k = "sampler" -> [st EXCEPT !.smp = @ \cup {o.h}, !.reg = Put(@, o.h, << "VkSampler", "Sampler_" \o o.name, o.st >>)]
    [] o.k = "dropsampler" -> [st EXCEPT !.smp = @ \ {o.h}, !.reg = Drop(@, {o.h})]
    [] o.k = "quad" -> [st EXCEPT !.quad = @ \cup { << o.h, o.x >> },
                                  !.reg = Put(Put(@, o.h, << "VkBuffer", "QuadVertexBuffer_" \o o.name, o.st >>), o.x, << "VkDeviceMemory", "QuadVertexMemory_" \o o.name, o.st >>)]
    [] o.k = "dropquad" -> LET gone == { q \in st.quad : q[1] = o.h }
                           IN  [st EXCEPT !.quad = @ \ gone, !.reg = Drop(@, { q[1] : q \in gone } \cup { q[2] : q \in gone })]
    [] o.k = "reg" -> [st EXCEPT !.reg = Put(@, o.id, << "VkImage", o.name, o.st >>)]
    [] o.k = "unreg" -> [st EXCEPT !.reg = Drop(@, {o.id})]
    [] OTHER -> st
RECURSIVE Reach(_, _)
Reach(cs, ps) ==
  LET more == { [st |-> After(c.st, ps[t]), done |-> c.done \cup {t}] : << c, t >> \in { p \in cs \X DOMAIN ps : p[2] \notin p[1].done /\ May(p[1].st, ps[p[2]]) } }
  IN  IF more \subseteq cs THEN cs ELSE Reach(cs \cup more, ps)

Init == l = 1 /\ sc = 0 /\ viol = << >> /\ pend = EmptyFn /\ confs = {} /\ alive = {} /\ CovInit
Scenario == /\ Is("scen") /\ sc' = Ev.s /\ pend' = EmptyFn /\ alive' = {} /\ NoReport
            /\ confs' = { [st |-> [Nothing EXCEPT !.ids = { << i[1], i[2] >> : i \in SetOf(Ev.images) },
                                                  !.vws = [k \in { v[1] : v \in SetOf(Ev.views) } |-> LET v == CHOOSE v \in SetOf(Ev.views) : v[1] = k IN << v[2], v[3] >>]],
                           done |-> {}] }
Inv == /\ Is("inv")
       /\ LET ps == Put(pend, Ev.t, Ev.o) IN pend' = ps /\ confs' = Reach(confs, ps)
       /\ NoReport /\ UNCHANGED << sc, alive >>
Ret == /\ Is("ret")
       /\ LET left == { c \in confs : Ev.t \in c.done } IN
          \* (once lost, each answer is taken as it is)
          /\ confs' = Reach({ [c EXCEPT !.done = @ \ {Ev.t}] : c \in left }, Drop(pend, {Ev.t}))
          /\ Report(<< << "C34.one-after-the-other", confs = {} \/ left # {}, << pend[Ev.t], confs >> >>,
                       << "C34.as-asked", pend[Ev.t].ok, << pend[Ev.t] >> >> >>)
       /\ pend' = Drop(pend, {Ev.t})
       /\ UNCHANGED << sc, alive >>
New == Is("new") /\ alive' = alive \cup {Ev.h} /\ NoReport /\ UNCHANGED << sc, pend, confs >>
Del == /\ Is("del") /\ alive' = alive \ {Ev.h}
       /\ Report(<< << "C34.destroyed-once", Ev.h \in alive, << Ev.h >> >> >>)
       /\ UNCHANGED << sc, pend, confs >>
\* no two threads ever touched the same data without anything to order them
Races == /\ Is("races")
         /\ Report(<< << "C34.ordered", Ev.n <= 0, << Ev.n >> >> >>)
         /\ UNCHANGED << sc, svars >>
\* what the handler and the context say is left, in the end
End == /\ Is("end")
       /\ LET h == { c \in confs : /\ SetOf(Ev.images) = DOMAIN c.st.img /\ Len(Ev.images) = Cardinality(DOMAIN c.st.img)
                                   /\ SetOf(Ev.views) = DOMAIN c.st.vi /\ Len(Ev.views) = Cardinality(DOMAIN c.st.vi)
                                   /\ Ev.samplers = Cardinality(c.st.smp) /\ Ev.quads = 2 * Cardinality(c.st.quad)
                                   /\ alive = RangeOf(c.st.img) \cup RangeOf(c.st.vi) \cup c.st.smp \cup { q[1] : q \in c.st.quad } }
              r == { c \in h : SetOf(Ev.reg) = RangeOf(c.st.reg) /\ Len(Ev.reg) = Cardinality(DOMAIN c.st.reg) }
          IN  Report(<< << "C34.handler-left", confs = {} \/ h # {}, << Ev, confs >> >>,
                        << "C34.registry-left", h = {} \/ r # {}, << Ev, confs >> >> >>)
       /\ UNCHANGED << sc, svars >>
Step == Scenario \/ Inv \/ Ret \/ New \/ Del \/ Races \/ End
Next == \/ Step /\ l' = l + 1
        \/ Finish /\ UNCHANGED << sc, viol, svars >>
Spec == Init /\ [][Next]_<< l, sc, viol, svars >>
=============================================================================
