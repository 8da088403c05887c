------------------------------- MODULE Frame -------------------------------
(* Building, recording and submitting frame graphs.                           *)
(*   C01 order of passes        C02 accepted / refused graphs                 *)
(*   C03 recorded passes        C09 implicit actions                          *)
(*   C15 submission protocol    C17 timestamp queries                         *)
EXTENDS Mon

VARIABLES decl,    \* what the user declared: passes, graphs, dependencies
          dyn,     \* enable flag and variant index each pass reports now
          names,   \* names taken, groups and ids handed out
          order,   \* execution order learnt per graph
          inits,   \* pass variants initialised
          fr,      \* the frame being recorded
          gpu,     \* fences, command buffers, submissions
          tq       \* query pools and slots

fvars == << decl, dyn, names, order, inits, fr, gpu, tq >>

\* ---------------------------------------------------------------- declared
PassSet(g) == { p \in names.acc : decl.passes[p].g = g }
Deps(p) == SetOf(decl.passes[p].deps)

RECURSIVE Closure(_, _)
Closure(S, acc) ==
  LET nxt == UNION { Deps(p) : p \in S } \ acc
  IN  IF nxt = {} THEN acc ELSE Closure(nxt, acc \cup nxt)
Before(p) == Closure({p}, {})               \* everything p was declared to depend on
Cyclic(g) == \E p \in PassSet(g) : p \in Before(p)
Nominal(g) == { p \in PassSet(g) : dyn[p].en }
Uses(p, idx) == SetOf(decl.passes[p].uses[idx + 1])
Imps(p) == DOMAIN decl.passes[p].imps
Pos(g, p) == CHOOSE i \in DOMAIN order[g] : order[g][i] = p
Ordered(g) == g \in DOMAIN order

NoFrame == [on |-> FALSE]
NewFrame(g, submit, waits) ==
  [on |-> TRUE, g |-> g, submit |-> submit, waits |-> waits, cb |-> 0, ended |-> FALSE, done |-> << >>,
   open |-> 0, phase |-> 0, idx |-> 0, preN |-> 0, postN |-> 0, impl |-> {}, pend |-> {},
   subs |-> 0, sig |-> 0, ts |-> << >>, reset |-> {}, tsdone |-> TRUE, gts |-> 0, written |-> {}, lab |-> EmptyFn, named |-> {}]

Init == /\ l = 1 /\ sc = 0 /\ viol = << >> /\ CovInit
        /\ decl = [passes |-> << >>, period |-> 1000]
        /\ dyn = << >> /\ names = [n |-> {}, grp |-> EmptyFn, ids |-> {}, acc |-> {}, body |-> EmptyFn, cbs |-> EmptyFn]
        /\ order = EmptyFn /\ inits = {} /\ fr = NoFrame
        /\ gpu = [fence |-> EmptyFn, cb |-> EmptyFn]
        /\ tq = [pool |-> EmptyFn, owner |-> EmptyFn, written |-> {}, pair |-> EmptyFn, val |-> EmptyFn, read |-> << >>, last |-> EmptyFn, due |-> {}]

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e

Scenario == /\ Is("scen")
            /\ sc' = Ev.s
            /\ decl' = Ev.decl
            /\ dyn' = [p \in DOMAIN Ev.decl.passes |-> [en |-> Ev.decl.passes[p].en, idx |-> Ev.decl.passes[p].idx]]
            /\ names' = [n |-> {}, grp |-> EmptyFn, ids |-> {}, acc |-> {}, body |-> EmptyFn, cbs |-> EmptyFn]
            /\ order' = EmptyFn /\ inits' = {} /\ fr' = NoFrame
            /\ gpu' = [fence |-> EmptyFn, cb |-> EmptyFn]
            /\ tq' = [pool |-> EmptyFn, owner |-> EmptyFn, written |-> {}, pair |-> EmptyFn, val |-> EmptyFn, read |-> << >>, last |-> EmptyFn, due |-> {}]
            /\ NoReport

Same(vs) == UNCHANGED vs

\* ---------------------------------------------------------------- building
Group == /\ Is("group")
         /\ LET k == << Ev.parent, Ev.name >>
                known == k \in DOMAIN names.grp
            IN /\ Report(<< << "C02.group-shared", known => Ev.same = names.grp[k], << Ev.name, Ev.same >> >>,
                            << "C02.group-new", ~known => Ev.same = 0, << Ev.name, Ev.same >> >>,
                            << "C02.group-name", Ev.gname = Ev.name /\ Ev.full = Ev.prefix \o "/" \o Ev.name, << Ev.full >> >> >>)
               /\ names' = [names EXCEPT !.grp = IF known THEN @ ELSE Put(@, k, Ev.id)]
         /\ Same(<< sc, decl, dyn, order, inits, fr, gpu, tq >>)

Pass == /\ Is("pass")
        /\ LET k == << Ev.parent, Ev.name >>
               dup == k \in names.n
           IN /\ Report(<< << "C02.duplicate-refused", dup => ~Ev.ok, k >>,
                           << "C02.distinct-accepted", ~dup => Ev.ok, k >>,
                           << "C02.pass-id-unique", Ev.ok => << Ev.g, Ev.lid >> \notin names.ids, << Ev.lid >> >>,
                           << "C02.pass-name", Ev.ok => Ev.full = Ev.prefix \o "/" \o Ev.name /\ Ev.pname = Ev.name, << Ev.full >> >> >>)
              /\ names' = IF Ev.ok THEN [names EXCEPT !.n = @ \cup {k}, !.ids = @ \cup {<< Ev.g, Ev.lid >>}, !.acc = @ \cup {Ev.p}] ELSE names
        /\ Same(<< sc, decl, dyn, order, inits, fr, gpu, tq >>)

Compiled == /\ Is("compiled")
            /\ LET none == PassSet(Ev.g) = {}
               IN Report(<< << "C02.empty-refused", none => ~Ev.ok, << Ev.g >> >>,
                            << "C02.orderable-accepted", (~none /\ ~Cyclic(Ev.g)) => Ev.ok, << Ev.g, Ev.err >> >>,
                            << "C01.runnable-passes",
                               Ev.ok => /\ SetOf(Ev.created) = PassSet(Ev.g)
                                        /\ Len(Ev.created) = Cardinality(PassSet(Ev.g)), << Ev.created >> >> >>)
            /\ Same(<< sc, decl, dyn, names, order, inits, fr, gpu, tq >>)

Set == /\ Is("set")
       /\ dyn' = [dyn EXCEPT ![Ev.p] = [en |-> Ev.en, idx |-> Ev.idx]]
       /\ names' = [names EXCEPT !.body = EmptyFn]
       /\ NoReport
       /\ Same(<< sc, decl, order, inits, fr, gpu, tq >>)

InitVariant == /\ Is("init")
               /\ Report(<< << "C03.init-once", << Ev.p, Ev.idx >> \notin inits, << Ev.p, Ev.idx >> >> >>)
               /\ inits' = inits \cup { << Ev.p, Ev.idx >> }
               /\ Same(<< sc, decl, dyn, names, order, fr, gpu, tq >>)

\* --------------------------------------------------------------- recording
RunBegin == /\ Is("runBegin")
            /\ fr' = NewFrame(Ev.g, Ev.submit, Ev.waits)
            /\ tq' = [tq EXCEPT !.due = { t \in @ : t[1] # Ev.g }]
            /\ NoReport
            /\ Same(<< sc, decl, dyn, names, order, inits, gpu >>)

\* The checks that end the section of the pass recorded last.
Closing == IF fr.open = 0 THEN << >>
           ELSE LET d == decl.passes[fr.open]
                IN << << "C03.pass-completed", fr.phase = 4, << fr.open, fr.phase >> >>,
                      << "C03.post-actions", fr.postN = d.post, << fr.open, fr.postN >> >>,
                      << "C17.pair-closed", fr.tsdone, << fr.open >> >> >>

\* The view's implicit actions which must have run before p uses its views.
MustHaveRun(p) ==
  IF ~Ordered(fr.g) THEN {}
  ELSE { x \in UNION { { << q, j >> : j \in Imps(q) } : q \in PassSet(fr.g) } :
           /\ ~dyn[x[1]].en
           /\ Pos(fr.g, x[1]) < Pos(fr.g, p)
           /\ decl.passes[x[1]].imps[x[2]] \in Uses(p, dyn[p].idx) }

\* the views that actions copy or blit from
Sources(S) == { decl.passes[x[1]].srcs[x[2]] : x \in S } \ {0}
\* ... which the disabled passes before must have had their say on
SourceOwed(p, j) ==
  LET src == decl.passes[p].srcs[j]
  IN IF src = 0 \/ ~Ordered(fr.g) THEN {}
     ELSE { x \in UNION { { << q, k >> : k \in Imps(q) } : q \in PassSet(fr.g) } :
              ~dyn[x[1]].en /\ Pos(fr.g, x[1]) < Pos(fr.g, p) /\ decl.passes[x[1]].imps[x[2]] = src }

CbSt(c) == Get(gpu.cb, c, "new")
\* debug labels: everything recorded for a pass is inside its own one
Labels(cb) == Get(fr.lab, cb, << >>)
InLabel(p) == << "C31.inside", LET s == Labels(Ev.cb) IN s # << >> /\ s[Len(s)] = p, << p, Labels(Ev.cb) >> >>
Label == /\ Is("label") /\ fr.on
         /\ Report(<< << "C31.names-a-pass", Ev.p \in PassSet(fr.g) /\ dyn[Ev.p].en, << Ev.p >> >>,
                      << "C31.once", Ev.p \notin fr.named, << Ev.p >> >>,
                      << "C31.recording", CbSt(Ev.cb) = "recording", << Ev.cb >> >>,
                      << "C31.not-nested", Labels(Ev.cb) = << >>, << Ev.p, Labels(Ev.cb) >> >> >>)
         /\ fr' = [fr EXCEPT !.lab = Put(@, Ev.cb, Append(Labels(Ev.cb), Ev.p)), !.named = @ \cup {Ev.p}]
         /\ Same(<< sc, decl, dyn, names, order, inits, gpu, tq >>)
Unlabel == /\ Is("unlabel") /\ fr.on
           /\ LET s == Labels(Ev.cb)
              IN /\ Report(<< << "C31.balanced", s # << >> /\ CbSt(Ev.cb) = "recording", << Ev.cb >> >> >>)
                 /\ fr' = [fr EXCEPT !.lab = Put(@, Ev.cb, IF s = << >> THEN s ELSE SubSeq(s, 1, Len(s) - 1))]
           /\ Same(<< sc, decl, dyn, names, order, inits, gpu, tq >>)

\* What was recorded for a pass (the clock's commands aside), to be found again when it is recorded again alone.
Body == /\ Is("body") /\ fr.on
        /\ names' = [names EXCEPT !.body = Put(@, Ev.p, << dyn[Ev.p].idx, Ev.cmds >>), !.cbs = Put(@, Ev.cb, << 0, 0 >>)]
        /\ NoReport
        /\ Same(<< sc, decl, dyn, order, inits, fr, gpu, tq >>)
Rerecorded ==
  /\ Is("rerec")
  /\ LET me == << Ev.p, dyn[Ev.p].idx >>
         was == Get(names.body, Ev.p, << -1, << >> >>)
     IN /\ Report(<< << "C03.re-recorded-own-buffer", Len(Ev.cbs) = 1 /\ Get(names.cbs, Ev.cbs[1], me) = me, << me, Ev.cbs >> >>,
                     << "C03.re-recorded", IF dyn[Ev.p].en THEN was[1] = me[2] => was[2] = Ev.cmds ELSE Ev.cmds = << >>, << me, was, Ev.cmds >> >> >>)
        /\ names' = IF Len(Ev.cbs) = 1 THEN [names EXCEPT !.cbs = Put(@, Ev.cbs[1], me)] ELSE names
        /\ tq' = [tq EXCEPT !.due = @ \ { << decl.passes[Ev.p].g, Ev.p >> }]
  /\ Same(<< sc, decl, dyn, order, inits, fr, gpu >>)

Starting(p, idx) ==
  LET before == { q \in Before(p) : dyn[q].en }
      done == SetOf(fr.done)
  IN << << "C01.once", p \notin done, << p >> >>,
        << "C01.order", Cyclic(fr.g) \/ before \subseteq done, << p, before, fr.done >> >>,
        << "C01.graph", p \in PassSet(fr.g), << p >> >>,
        << "C03.disabled-silent", dyn[p].en, << p >> >>,
        << "C03.variant", idx = dyn[p].idx, << p, idx, dyn[p].idx >> >>,
        << "C03.initialised-first", decl.passes[p].hasInit => << p, idx >> \in inits, << p, idx >> >>,
        << "C03.own-frame", Ev.cb = fr.cb /\ ~fr.ended, << p >> >>,
        << "C09.in-time", MustHaveRun(p) \subseteq fr.impl, << p, MustHaveRun(p), fr.impl >> >>,
        << "C09.only-for-user", \A x \in fr.pend : decl.passes[x[1]].imps[x[2]] \in Uses(p, dyn[p].idx) \cup Sources(fr.pend), << p, fr.pend >> >>,
        InLabel(p),
        << "C17.pass-timed", Len(fr.ts) = 2, << p, fr.ts >> >> >>

StartPass(p, idx) ==
  [fr EXCEPT !.done = Append(@, p), !.open = p, !.phase = 1, !.idx = idx, !.preN = 0, !.postN = 0, !.pend = {}, !.tsdone = FALSE]

NeedStart(p) == fr.open # p \/ fr.phase = 4

Pre == /\ Is("pre") /\ fr.on
       /\ IF NeedStart(Ev.p)
          THEN /\ Report(Closing \o Starting(Ev.p, Ev.idx) \o << << "C03.pre-actions", Ev.j = 0, << Ev.p, Ev.j >> >> >>)
               /\ fr' = [StartPass(Ev.p, Ev.idx) EXCEPT !.preN = 1]
          ELSE /\ Report(<< << "C03.pre-actions", fr.phase = 1 /\ Ev.j = fr.preN, << Ev.p, Ev.j >> >>,
                            << "C03.variant", Ev.idx = fr.idx, << Ev.p, Ev.idx >> >> >>)
               /\ fr' = [fr EXCEPT !.preN = @ + 1]
       /\ Same(<< sc, decl, dyn, names, order, inits, gpu, tq >>)

Begin == /\ Is("begin") /\ fr.on
         /\ LET ok == fr.preN = decl.passes[Ev.p].pre
            IN IF NeedStart(Ev.p)
               THEN /\ Report(Closing \o Starting(Ev.p, Ev.idx) \o << << "C03.pre-actions", decl.passes[Ev.p].pre = 0, << Ev.p >> >> >>)
                    /\ fr' = [StartPass(Ev.p, Ev.idx) EXCEPT !.phase = 2]
               ELSE /\ Report(<< << "C03.pre-actions", fr.phase = 1 /\ ok, << Ev.p, fr.preN >> >> >>)
                    /\ fr' = [fr EXCEPT !.phase = 2]
         /\ Same(<< sc, decl, dyn, names, order, inits, gpu, tq >>)

Exec == /\ Is("exec") /\ fr.on
        /\ Report(<< << "C03.executed-in-place", fr.open = Ev.p /\ fr.phase = 2 /\ Ev.cb = fr.cb, << Ev.p, fr.open, fr.phase >> >>,
                     << "C03.variant", Ev.idx = dyn[Ev.p].idx, << Ev.p, Ev.idx >> >>, InLabel(Ev.p),
                     << "C03.disabled-silent", dyn[Ev.p].en, << Ev.p >> >> >>)
        /\ fr' = [fr EXCEPT !.phase = 3]
        /\ Same(<< sc, decl, dyn, names, order, inits, gpu, tq >>)

End == /\ Is("end") /\ fr.on
       /\ Report(<< << "C03.executed-once", fr.open = Ev.p /\ fr.phase = (IF decl.passes[Ev.p].hasExec THEN 3 ELSE 2), << Ev.p, fr.open, fr.phase >> >>,
                    InLabel(Ev.p),
                    << "C03.post-actions", fr.postN = 0, << Ev.p >> >> >>)
       /\ fr' = [fr EXCEPT !.phase = 4]
       /\ Same(<< sc, decl, dyn, names, order, inits, gpu, tq >>)

Post == /\ Is("post") /\ fr.on
        /\ Report(<< InLabel(Ev.p), << "C03.post-actions", fr.open = Ev.p /\ fr.phase = 4 /\ Ev.j = fr.postN /\ Ev.idx = fr.idx, << Ev.p, Ev.j >> >> >>)
        /\ fr' = [fr EXCEPT !.postN = @ + 1]
        /\ Same(<< sc, decl, dyn, names, order, inits, gpu, tq >>)

\* Work recorded outside of the section of an enabled pass.
Work == /\ Is("work") /\ fr.on
        /\ Report(<< << "C31.inside", Ev.cb # fr.cb \/ Labels(Ev.cb) # << >>, << Ev.k >> >>,
                     << "C03.stray-work", Ev.cb # fr.cb \/ (fr.open # 0 /\ fr.phase \in {2, 3}), << Ev.k, fr.open, fr.phase >> >> >>)
        /\ Same(<< sc, decl, dyn, names, order, inits, fr, gpu, tq >>)

Target(x) == decl.passes[x[1]].imps[x[2]]
Implicit == /\ Is("implicit") /\ fr.on
            /\ LET x == << Ev.p, Ev.j >>
               IN /\ Report(<< << "C09.only-when-disabled", ~dyn[Ev.p].en, x >>,
                               << "C09.once", x \notin fr.impl, x >>,
                               << "C09.order", Cyclic(fr.g) \/ \A y \in fr.impl : Target(y) = Target(x) => Ev.p \notin Before(y[1]), << x, fr.impl >> >>,
                               << "C09.graph", Ev.p \in PassSet(fr.g) /\ Ev.cb = fr.cb, x >> >>)
                  /\ fr' = [fr EXCEPT !.impl = @ \cup {x}, !.pend = @ \cup {x}]
            /\ Same(<< sc, decl, dyn, names, order, inits, gpu, tq >>)

ImplicitEnd == /\ Is("implicitEnd") /\ fr.on
               /\ Report(<< << "C09.source-ready", SourceOwed(Ev.p, Ev.j) \subseteq fr.impl, << Ev.p, Ev.j, fr.impl >> >> >>)
               /\ Same(<< sc, decl, dyn, names, order, inits, fr, gpu, tq >>)

RunEnd ==
  /\ Is("runEnd") /\ fr.on
  /\ LET last == IF fr.done = << >> THEN 0 ELSE fr.done[Len(fr.done)]
         given == { << w[1], SetOf(w[2]) >> : w \in { w \in SetOf(fr.waits) : w[1] # 0 } }
     IN Report(
          << << "C03.frame-recorded", Ev.ok, << Ev.err >> >> >>
          \o Closing
          \o << << "C01.all-enabled-executed", SetOf(fr.done) = Nominal(fr.g), << fr.done, Nominal(fr.g) >> >>,
                << "C01.exactly-once", Len(fr.done) = Cardinality(SetOf(fr.done)), << fr.done >> >>,
                << "C09.none-left", fr.pend = {}, << fr.pend >> >>,
                << "C15.one-submission", fr.subs = (IF fr.submit THEN 1 ELSE 0), << fr.subs >> >>,
                << "C15.recorded-once", fr.cb # 0 /\ fr.ended, << fr.cb >> >>,
                << "C17.frame-timed", fr.ts = << >> /\ fr.gts = 1, << fr.ts, fr.gts >> >> >>
          \o (IF fr.submit
              THEN << << "C15.returned-semaphore", Len(Ev.ret) = 1 /\ Ev.ret[1][1] = fr.sig, << Ev.ret, fr.sig >> >> >>
              ELSE << >>)
          \o (IF fr.submit /\ last # 0 /\ decl.passes[last].st # << >>
              THEN << << "C15.returned-stage", SetOf(Ev.ret[1][2]) = SetOf(decl.passes[last].st), << Ev.ret, last >> >> >>
              ELSE << >>))
  /\ order' = IF Nominal(fr.g) = PassSet(fr.g) /\ SetOf(fr.done) = PassSet(fr.g) /\ Len(fr.done) = Cardinality(PassSet(fr.g))
              THEN Put(order, fr.g, fr.done) ELSE order
  /\ fr' = NoFrame
  \* what ran has been measured: asked next, its timers must tell
  /\ tq' = IF Ev.ok /\ fr.submit THEN [tq EXCEPT !.due = @ \cup { << fr.g, p >> : p \in {0} \cup SetOf(fr.done) }] ELSE tq
  /\ Same(<< sc, decl, dyn, names, inits, gpu >>)

\* -------------------------------------------------------------- submission
Fence(h) == Get(gpu.fence, h, [st |-> "s", cbs |-> {}])

CreateFence == /\ Is("CreateFence")
               /\ gpu' = [gpu EXCEPT !.fence = Put(@, Ev.h, [st |-> IF Ev.signaled THEN "s" ELSE "u", cbs |-> {}])]
               /\ NoReport
               /\ Same(<< sc, decl, dyn, names, order, inits, fr, tq >>)

WaitFences == /\ Is("WaitForFences")
              /\ LET fs == SetOf(Ev.fs)
                     freed == UNION { Fence(f).cbs : f \in fs }
                 IN /\ Report(<< << "C15.wait-can-end", \A f \in fs : Fence(f).st # "u", << Ev.fs >> >> >>)
                    /\ gpu' = [fence |-> [f \in DOMAIN gpu.fence |-> IF f \in fs THEN [st |-> "s", cbs |-> {}] ELSE gpu.fence[f]],
                               cb |-> [c \in DOMAIN gpu.cb |-> IF c \in freed /\ gpu.cb[c] = "pending" THEN "ready" ELSE gpu.cb[c]]]
              /\ Same(<< sc, decl, dyn, names, order, inits, fr, tq >>)

ResetFences == /\ Is("ResetFences")
               /\ Report(<< << "C15.fence-reset-after-wait", \A f \in SetOf(Ev.fs) : Fence(f).st # "p", << Ev.fs >> >> >>)
               /\ gpu' = [gpu EXCEPT !.fence = [f \in DOMAIN gpu.fence |-> IF f \in SetOf(Ev.fs) THEN [gpu.fence[f] EXCEPT !.st = "u"] ELSE gpu.fence[f]]]
               /\ Same(<< sc, decl, dyn, names, order, inits, fr, tq >>)

ResetCb == /\ Is("ResetCommandBuffer")
           /\ Report(<< << "C15.not-in-flight", CbSt(Ev.cb) # "pending", << Ev.cb >> >> >>)
           /\ gpu' = [gpu EXCEPT !.cb = Put(@, Ev.cb, "new")]
           /\ Same(<< sc, decl, dyn, names, order, inits, fr, tq >>)

BeginCb == /\ Is("BeginCommandBuffer")
           /\ Report(<< << "C15.not-in-flight", CbSt(Ev.cb) # "pending", << Ev.cb >> >>,
                        << "C15.not-recording", CbSt(Ev.cb) # "recording", << Ev.cb >> >> >>)
           /\ gpu' = [gpu EXCEPT !.cb = Put(@, Ev.cb, "recording")]
           /\ fr' = IF fr.on /\ fr.cb = 0 THEN [fr EXCEPT !.cb = Ev.cb] ELSE fr
           /\ Same(<< sc, decl, dyn, names, order, inits, tq >>)

EndCb == /\ Is("EndCommandBuffer")
         /\ Report(<< << "C31.balanced", ~fr.on \/ Labels(Ev.cb) = << >>, << Ev.cb >> >>,
                      << "C15.end-of-recording", CbSt(Ev.cb) = "recording", << Ev.cb >> >> >>)
         /\ gpu' = [gpu EXCEPT !.cb = Put(@, Ev.cb, "ready")]
         /\ fr' = IF fr.on /\ fr.cb = Ev.cb THEN [fr EXCEPT !.ended = TRUE] ELSE fr
         /\ Same(<< sc, decl, dyn, names, order, inits, tq >>)

Submit ==
  /\ Is("QueueSubmit")
  /\ LET subs == Ev.subs
         cbs == UNION { SetOf(subs[i].cbs) : i \in DOMAIN subs }
         s == subs[1]
         waited == [i \in DOMAIN s.waits |-> << s.waits[i], SetOf(s.stages[i]) >>]
         given == { << w[1], SetOf(w[2]) >> : w \in { w \in SetOf(fr.waits) : w[1] # 0 } }
     IN /\ Report(
           << << "C15.inside-run", fr.on, << Ev.fence >> >> >>
           \o (IF ~fr.on THEN << >> ELSE
              << << "C15.own-command-buffer", Len(subs) = 1 /\ s.cbs = << fr.cb >> /\ fr.ended, << s.cbs, fr.cb >> >>,
                 << "C15.waits-given", SetOf(waited) = given, << s.waits, given >> >>,
                 << "C15.waits-distinct", \A i, j \in DOMAIN s.waits : s.waits[i] = s.waits[j] => i = j, << s.waits >> >>,
                 << "C15.one-signal", Len(s.sigs) = 1, << s.sigs >> >>,
                 << "C15.fence-ready", Ev.fence # 0 /\ Fence(Ev.fence).st = "u", << Ev.fence >> >>,
                 << "C15.recorded", \A c \in cbs : CbSt(c) = "ready", << cbs >> >> >>))
        /\ gpu' = [fence |-> Put(gpu.fence, Ev.fence, [st |-> "p", cbs |-> cbs]),
                   cb |-> [c \in DOMAIN gpu.cb |-> IF c \in cbs THEN "pending" ELSE gpu.cb[c]]]
        /\ fr' = IF fr.on THEN [fr EXCEPT !.subs = @ + 1, !.sig = IF s.sigs = << >> THEN 0 ELSE s.sigs[1]] ELSE fr
        /\ tq' = IF fr.on THEN [tq EXCEPT !.written = (@ \ fr.reset) \cup fr.written] ELSE tq
  /\ Same(<< sc, decl, dyn, names, order, inits >>)

\* ------------------------------------------------------------------ timers
CreatePool == /\ Is("CreateQueryPool")
              /\ tq' = [tq EXCEPT !.pool = Put(@, Ev.h, Ev.count)]
              /\ NoReport
              /\ Same(<< sc, decl, dyn, names, order, inits, fr, gpu >>)

ResetQueries ==
  /\ Is("ResetQueryPool") /\ fr.on
  /\ LET slots == { << Ev.pool, q >> : q \in Ev.first .. (Ev.first + Ev.n - 1) }
     IN /\ Report(<< << "C17.reset-in-pool", Ev.first + Ev.n <= Get(tq.pool, Ev.pool, 0), << Ev.pool, Ev.first, Ev.n >> >>,
                     << "C17.reset-before-use", slots \cap fr.written = {}, << slots >> >> >>)
        /\ fr' = [fr EXCEPT !.reset = @ \cup slots]
  /\ Same(<< sc, decl, dyn, names, order, inits, gpu, tq >>)

\* Timestamps nest: the frame's pair around one pair per recorded pass.
Timestamp ==
  /\ Is("WriteTimestamp") /\ fr.on
  /\ LET q == << Ev.pool, Ev.q >>
         n == Len(fr.ts)
         allDone == Cardinality(SetOf(fr.done)) = Cardinality(Nominal(fr.g)) /\ fr.tsdone
         closesPass == n = 2
         closesFrame == n = 1 /\ allDone
         opensPass == n = 1 /\ ~allDone
         timer == IF n = 0 \/ closesFrame THEN << fr.g, 0 >> ELSE IF closesPass THEN << fr.g, fr.open >> ELSE << fr.g, -1 >>
         own == Get(tq.owner, q, << 0, 0 >>)
     IN /\ Report(
           << << "C17.slot-in-pool", Ev.q < Get(tq.pool, Ev.pool, 0), q >>,
              << "C17.slot-reset", q \in fr.reset, q >>,
              << "C17.slot-once", q \notin fr.written, q >>,
              << "C17.slot-not-shared", opensPass \/ own \in { << 0, 0 >>, timer }, << q, own, timer >> >>,
              << "C17.encloses-pass", closesPass => fr.open # 0 /\ fr.phase = 4 /\ ~fr.tsdone, << q, fr.open, fr.phase >> >> >>
           \o (IF closesPass
               THEN << << "C17.slot-not-shared", Get(tq.owner, fr.ts[2], << 0, 0 >>) \in { << 0, 0 >>, timer }, << fr.ts[2], timer >> >> >>
               ELSE << >>))
        /\ fr' = [fr EXCEPT !.ts = IF closesPass \/ closesFrame THEN SubSeq(@, 1, n - 1) ELSE Append(@, q),
                            !.gts = IF closesFrame THEN @ + 1 ELSE @,
                            !.tsdone = IF closesPass THEN TRUE ELSE @,
                            !.written = @ \cup {q}]
        /\ tq' = [tq EXCEPT !.owner = IF opensPass THEN @
                                      ELSE IF closesPass THEN Put(Put(@, q, timer), fr.ts[2], timer)
                                      ELSE Put(@, q, timer),
                            !.pair = IF closesPass \/ closesFrame THEN Put(@, fr.ts[n], q) ELSE @]
  /\ Same(<< sc, decl, dyn, names, order, inits, gpu >>)

GpuBegin == /\ Is("gpuBegin")
            /\ tq' = [tq EXCEPT !.read = << >>]
            /\ NoReport
            /\ Same(<< sc, decl, dyn, names, order, inits, fr, gpu >>)

Results ==
  /\ Is("GetQueryPoolResults")
  /\ LET slots == { << Ev.pool, q >> : q \in Ev.first .. (Ev.first + Ev.n - 1) }
     IN /\ Report(<< << "C17.read-written", slots \subseteq tq.written, << slots >> >> >>)
        /\ tq' = [tq EXCEPT !.written = @ \ slots,
                            !.read = Append(@, [pool |-> Ev.pool, first |-> Ev.first, n |-> Ev.n, vals |-> Ev.vals, ready |-> Ev.ready])]
  /\ Same(<< sc, decl, dyn, names, order, inits, fr, gpu >>)

Abs(x) == IF x < 0 THEN -x ELSE x
GpuTime ==
  /\ Is("gpuTime")
  /\ LET t == << Ev.g, Ev.p >>
         r == tq.read
         a == r[1]
         ticks == a.vals[2] - a.vals[1]
         two == r # << >> /\ Len(r) = 1 /\ a.n = 2 /\ a.ready
         first == << a.pool, a.first >>
         want == (ticks * decl.period) \div 1000
     IN /\ Report(IF r = << >>
                  THEN << << "C17.unread", Ev.ns \in { 0, Get(tq.last, t, 0) }, << t, Ev.ns >> >>,
                          << "C17.measured", t \notin tq.due, << t >> >> >>
                  ELSE << << "C17.reads-own-pair", two /\ Get(tq.owner, first, << 0, 0 >>) = t /\ Get(tq.pair, first, << 0, 0 >>) = << a.pool, a.first + 1 >>, << t, a >> >>,
                          << "C17.duration", two => Abs(Ev.ns - want) <= 1, << t, Ev.ns, want >> >> >>)
        /\ tq' = [tq EXCEPT !.last = Put(@, t, Ev.ns), !.read = << >>, !.due = @ \ {t}]
  /\ Same(<< sc, decl, dyn, names, order, inits, fr, gpu >>)

Step == \/ Body \/ Rerecorded \/ Scenario \/ Group \/ Pass \/ Compiled \/ Set \/ InitVariant
        \/ RunBegin \/ Pre \/ Begin \/ Exec \/ End \/ Post \/ Work \/ Label \/ Unlabel \/ Implicit \/ ImplicitEnd \/ RunEnd
        \/ CreateFence \/ WaitFences \/ ResetFences \/ ResetCb \/ BeginCb \/ EndCb \/ Submit
        \/ CreatePool \/ ResetQueries \/ Timestamp \/ GpuBegin \/ Results \/ GpuTime
Next == \/ Step /\ l' = l + 1
        \/ Finish /\ UNCHANGED << sc, viol, fvars >>
Spec == Init /\ [][Next]_<< l, sc, viol, fvars >>
=============================================================================
