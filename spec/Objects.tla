------------------------------- MODULE Objects -------------------------------
(* Device objects: what the library creates, uses, hands over and destroys.   *)
(*   C12 lifetime      C13 images and views     C14 samplers, quad geometry   *)
(*   C16 replacement   C28 registry             C29 memory types              *)
EXTENDS Mon, Geom, Bitwise

VARIABLES obj,     \* live objects: handle -> [k, par, use, og, pr]
          mem,     \* memory: [req, bound (handle -> memory), data, types]
          refs,    \* what descriptor sets and command buffers refer to
          flight,  \* fence -> objects of the pending submission
          repl,    \* replaced pipelines: [old: pipeline -> [g, n], cur, bound, og]
          ids,     \* image and view identifiers, what backs them, what the caches handed out
          reg      \* objects the user registered with the context

ovars == << obj, mem, refs, flight, repl, ids, reg >>

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
Live == DOMAIN obj

NoMem == [req |-> EmptyFn, bound |-> EmptyFn, data |-> EmptyFn, flushed |-> EmptyFn, types |-> << 1, 2, 7 >>]
NoRepl == [old |-> EmptyFn, in |-> << 0, 0 >>, bound |-> EmptyFn, og |-> 0]
NoIds == [img |-> {}, view |-> EmptyFn, bk |-> EmptyFn, own |-> EmptyFn, smp |-> EmptyFn, quad |-> EmptyFn]
NoReg == [user |-> EmptyFn, pend |-> << >>]
NoRefs == [set |-> EmptyFn, cb |-> EmptyFn]

Init == /\ l = 1 /\ sc = 0 /\ viol = << >> /\ CovInit
        /\ obj = EmptyFn /\ mem = NoMem /\ refs = NoRefs /\ flight = EmptyFn /\ repl = NoRepl /\ ids = NoIds /\ reg = NoReg

Scenario == /\ Is("scen") /\ sc' = Ev.s /\ NoReport
            /\ obj' = EmptyFn /\ mem' = NoMem /\ refs' = NoRefs /\ flight' = EmptyFn /\ repl' = NoRepl /\ ids' = NoIds /\ reg' = NoReg

\* ---------------------------------------------------------------- what an execution reaches
Direct(h) == (IF h \in Live THEN obj[h].use ELSE {})
             \cup (IF h \in DOMAIN refs.set THEN UNION { refs.set[h][b] : b \in DOMAIN refs.set[h] } ELSE {})
             \cup (IF h \in DOMAIN mem.bound THEN {mem.bound[h]} ELSE {})
RECURSIVE Reach(_, _)
Reach(front, acc) == LET nxt == UNION { Direct(h) : h \in front } \ acc
                     IN  IF nxt = {} THEN acc ELSE Reach(nxt, acc \cup nxt)
InFlight == UNION { flight[f] : f \in DOMAIN flight }

\* ---------------------------------------------------------------- lifetime
Owned(o) == { h \in Live : obj[h].og = o }
SamePr(h, e) == obj[h].k = e.k /\ obj[h].pr = e.pr

New == /\ Is("new")
       /\ Report(<< << "C12.new-handle", Ev.h \notin Live, << Ev.k, Ev.h >> >>,
                    << "C12.created-from-live", SetOf(Ev.cre) \subseteq Live, << Ev.k, Ev.h, SetOf(Ev.cre) \ Live >> >> >>
                 \o (IF Ev.k = "Sampler"
                     THEN << << "C14.shared-sampler", ~ \E h \in Owned(repl.og) : SamePr(h, Ev), << Ev.h, Ev.pr >> >> >> ELSE << >>))
       /\ obj' = Put(obj, Ev.h, [k |-> Ev.k, par |-> SetOf(Ev.par), use |-> SetOf(Ev.use), og |-> repl.og, pr |-> Ev.pr])
       /\ UNCHANGED << sc, mem, refs, flight, repl, ids, reg >>

\* destroying a descriptor pool frees its sets
Del == /\ Is("del")
       /\ LET h == Ev.h
              kids == { x \in Live : h \in obj[x].par }
              freed == IF h \in Live /\ obj[h].k = "DescriptorPool" THEN kids ELSE {}
          IN /\ Report(<< << "C12.destroyed-once", h \in Live, << h >> >>,
                          << "C12.children-first", kids \subseteq freed, << h, { << x, obj[x].k >> : x \in kids \ freed } >> >>,
                          << "C16.in-flight", ({h} \cup freed) \cap InFlight = {}, IF h \in Live THEN << obj[h].k, h >> ELSE << h >> >> >>)
             /\ obj' = Drop(obj, {h} \cup freed)
             /\ refs' = [set |-> Drop(refs.set, {h} \cup freed), cb |-> Drop(refs.cb, {h})]
             /\ mem' = [mem EXCEPT !.bound = Drop(@, {h})]
             /\ ids' = [ids EXCEPT !.bk = [k \in { k \in DOMAIN @ : @[k] # h } |-> @[k]]]
       /\ UNCHANGED << sc, flight, repl, reg >>

Touch == /\ Is("touch")
         /\ Report(<< << "C12.used-live", SetOf(Ev.hs) \subseteq Live, SetOf(Ev.hs) \ Live >> >>)
         /\ UNCHANGED << sc, ovars >>

Upd == /\ Is("upd")
       /\ Report(<< << "C12.written-live", {Ev.set} \cup SetOf(Ev.refs) \subseteq Live, << Ev.set, SetOf(Ev.refs) \ Live >> >> >>)
       /\ refs' = [refs EXCEPT !.set = Put(@, Ev.set, Put(Get(@, Ev.set, EmptyFn), Ev.b, SetOf(Ev.refs)))]
       /\ UNCHANGED << sc, obj, mem, flight, repl, ids, reg >>

Rec == /\ Is("rec")
       /\ Report(<< << "C12.recorded-live", Ev.cb \in Live, << Ev.cb >> >>,
                    << "C16.rerecorded-idle", Ev.cb \notin InFlight, << Ev.cb >> >> >>)
       /\ refs' = [refs EXCEPT !.cb = Put(@, Ev.cb, {})]
       /\ UNCHANGED << sc, obj, mem, flight, repl, ids, reg >>

Cmd == /\ Is("cmd")
       /\ LET R == SetOf(Ev.refs)
              k == repl.in
          IN /\ Report(<< << "C12.command-live", R \cup SetOf(Ev.only) \subseteq Live, << Ev.cb, (R \cup SetOf(Ev.only)) \ Live >> >>,
                          << "C12.reached-live", Reach(R, R) \subseteq Live, << Ev.cb, Reach(R, R) \ Live >> >> >>
                       \o (IF Ev.pipe # 0 THEN << << "C16.replacement-bound", Ev.pipe \notin DOMAIN repl.old, << Ev.pipe, k >> >> >> ELSE << >>))
             /\ refs' = [refs EXCEPT !.cb = Put(@, Ev.cb, Get(@, Ev.cb, {}) \cup R)]
             /\ repl' = IF Ev.pipe # 0 /\ k[1] # 0 THEN [repl EXCEPT !.bound = Put(@, k, Ev.pipe)] ELSE repl
       /\ UNCHANGED << sc, obj, mem, flight, ids, reg >>

Submit == /\ Is("submit")
          /\ LET C == SetOf(Ev.cbs)
                 R == UNION { Get(refs.cb, c, {}) : c \in C }
                 all == Reach(R, R) \cup C \cup SetOf(Ev.sems) \cup {Ev.fence}
             IN /\ Report(<< << "C12.submit-live", all \subseteq Live \cup {0}, all \ Live >>,
                             << "C16.replacement-submitted", R \cap DOMAIN repl.old = {}, R \cap DOMAIN repl.old >> >>)
                /\ flight' = Put(flight, Ev.fence, Get(flight, Ev.fence, {}) \cup all)
          /\ UNCHANGED << sc, obj, mem, refs, repl, ids, reg >>

Wait == /\ Is("wait")
        /\ Report(<< << "C12.used-live", SetOf(Ev.fs) \subseteq Live, SetOf(Ev.fs) \ Live >> >>)
        /\ flight' = Drop(flight, SetOf(Ev.fs))
        /\ UNCHANGED << sc, obj, mem, refs, repl, ids, reg >>

\* destroying a graph presumes an idle device
Idle == /\ Is("idle") /\ NoReport /\ flight' = EmptyFn /\ UNCHANGED << sc, obj, mem, refs, repl, ids, reg >>

Gone == /\ Is("gone")
        /\ Report(<< << "C12.torn-down", Owned(Ev.o) = {}, { << obj[h].k, h >> : h \in Owned(Ev.o) } >> >>)
        /\ ids' = [ids EXCEPT !.smp = [k \in { k \in DOMAIN @ : k[1] # Ev.o } |-> @[k]], !.quad = [k \in { k \in DOMAIN @ : k[1] # Ev.o } |-> @[k]],
                              !.own = [k \in { k \in DOMAIN @ : @[k] # Ev.o } |-> @[k]]]
        /\ UNCHANGED << sc, obj, mem, refs, flight, repl, reg >>

Fin == /\ Is("fin")
       /\ Report(<< << "C12.nothing-left", Live = {}, { << obj[h].k, h >> : h \in Live } >> >>)
       /\ UNCHANGED << sc, ovars >>

\* ---------------------------------------------------------------- replacement
Win == /\ Is("win") /\ NoReport /\ repl' = [repl EXCEPT !.og = Ev.o] /\ UNCHANGED << sc, obj, mem, refs, flight, ids, reg >>
In == /\ Is("in") /\ NoReport /\ repl' = [repl EXCEPT !.in = << Ev.p, Ev.idx >>] /\ UNCHANGED << sc, obj, mem, refs, flight, ids, reg >>

Replace == /\ Is("replace") /\ NoReport
           /\ LET ks == { k \in DOMAIN repl.bound : k[1] = Ev.p /\ (Ev.all \/ k[2] = Ev.idx) }
                  olds == { repl.bound[k] : k \in ks }
              IN repl' = [repl EXCEPT !.old = [x \in DOMAIN @ \cup olds |-> IF x \in DOMAIN @ THEN @[x] ELSE [g |-> Ev.g, n |-> 0]],
                                      !.bound = Drop(@, ks)]
           /\ UNCHANGED << sc, obj, mem, refs, flight, ids, reg >>

Ran == /\ Is("ran")
       /\ LET old == [x \in DOMAIN repl.old |-> IF repl.old[x].g = Ev.g THEN [repl.old[x] EXCEPT !.n = @ + 1] ELSE repl.old[x]]
              due == { x \in DOMAIN old : old[x].n > 1 }
          IN /\ Report(<< << "C16.reclaimed", due \cap Live = {}, due \cap Live >> >>)
             /\ repl' = [repl EXCEPT !.old = old]
       /\ UNCHANGED << sc, obj, mem, refs, flight, ids, reg >>

\* ---------------------------------------------------------------- memory
Has(flags, want) == (flags & want) = want
Lowest(bits, want, types) ==
  LET ok == { i \in bits : i < Len(types) /\ Has(types[i + 1], want) }
  IN  IF ok = {} THEN -1 ELSE Min(ok)

Ctx == /\ Is("ctx") /\ NoReport /\ mem' = [mem EXCEPT !.types = Ev.mem] /\ UNCHANGED << sc, obj, refs, flight, repl, ids, reg >>
Req == /\ Is("req") /\ NoReport
       /\ mem' = [mem EXCEPT !.req = Put(@, Ev.h, [size |-> Ev.size, bits |-> SetOf(Ev.bits)])]
       /\ UNCHANGED << sc, obj, refs, flight, repl, ids, reg >>
Bind == /\ Is("mem")
        /\ LET m == Ev.mem
               isImg == Ev.want = 1
               r == mem.req[Ev.h]
           IN /\ Report(<< << "C12.used-live", {m, Ev.h} \subseteq Live, {m, Ev.h} \ Live >>,
                           << "C13.memory-own", Ev.h \notin DOMAIN mem.bound /\ ~ \E x \in DOMAIN mem.bound : mem.bound[x] = m, << Ev.h, m >> >> >>
                        \o (IF m \in Live /\ Ev.h \in DOMAIN mem.req
                            THEN << << "C13.memory-suits", obj[m].pr[1] >= r.size /\ Ev.off = 0 /\ obj[m].pr[2] \in r.bits
                                       /\ obj[m].pr[2] < Len(mem.types) /\ Has(mem.types[obj[m].pr[2] + 1], Ev.want), << Ev.h, obj[m].pr >> >>,
                                    << "C29.lowest-used", obj[m].pr[2] = Lowest(r.bits, Ev.want, mem.types), << Ev.h, obj[m].pr >> >> >>
                            ELSE << << "C13.memory-required", FALSE, << Ev.h, m >> >> >>))
              /\ mem' = [mem EXCEPT !.bound = Put(@, Ev.h, m)]
        /\ UNCHANGED << sc, obj, refs, flight, repl, ids, reg >>
Unmap == /\ Is("unmap")
         /\ Report(<< << "C12.used-live", Ev.mem \in Live, << Ev.mem >> >> >>)
         /\ mem' = [mem EXCEPT !.data = Put(@, Ev.mem, Ev.data)]
         /\ UNCHANGED << sc, obj, refs, flight, repl, ids, reg >>
\* what the host wrote is made visible to the device: the memory is coherent, or flushed after the writes
Flush == /\ Is("flush")
         /\ Report(<< << "C12.used-live", Ev.mem \in Live, << Ev.mem >> >> >>)
         /\ mem' = [mem EXCEPT !.flushed = Put(@, Ev.mem, IF Ev.off = 0 THEN [n |-> Ev.size, data |-> Ev.data] ELSE [n |-> 0, data |-> << >>])]
         /\ UNCHANGED << sc, obj, refs, flight, repl, ids, reg >>
Visible(m) ==
  \/ Has(mem.types[obj[m].pr[2] + 1], 4)
  \/ /\ m \in DOMAIN mem.flushed /\ m \in DOMAIN mem.data
     /\ mem.flushed[m].data = mem.data[m] /\ (mem.flushed[m].n = -1 \/ mem.flushed[m].n >= 48)
MemType == /\ Is("memtype")
           /\ Report(<< << "C29.lowest", Ev.r = Lowest(SetOf(Ev.bits), Ev.req, mem.types), << Ev.bits, Ev.req, Ev.r >> >> >>)
           /\ UNCHANGED << sc, ovars >>

\* ---------------------------------------------------------------- images and views
Image == /\ Is("image")
         /\ Report(<< << "C13.new-image-id", Ev.lid # 0 /\ Ev.lid \notin ids.img, << Ev.lid >> >> >>)
         /\ ids' = [ids EXCEPT !.img = @ \cup {Ev.lid}]
         /\ UNCHANGED << sc, obj, mem, refs, flight, repl, reg >>
View == /\ Is("view")
        /\ LET d == Ev.d
           IN /\ Report(<< << "C13.same-view-same-id", d \in DOMAIN ids.view => ids.view[d] = Ev.lid, << d, Ev.lid >> >>,
                           << "C13.other-view-other-id", d \notin DOMAIN ids.view => Ev.lid # 0 /\ Ev.lid \notin { ids.view[x] : x \in DOMAIN ids.view }, << d, Ev.lid >> >> >>)
              /\ ids' = [ids EXCEPT !.view = IF d \in DOMAIN @ THEN @ ELSE Put(@, d, Ev.lid)]
        /\ UNCHANGED << sc, obj, mem, refs, flight, repl, reg >>

Key == << Ev.view, Ev.id >>
Backing ==
  /\ Is("backing")
  /\ LET k == Key
         h == Ev.h
         alive == h \in Live
     IN /\ Report(<< << "C13.one-backing", k \in DOMAIN ids.bk => ids.bk[k] = h, << k, h >> >>,
                     << "C13.own-backing", ~ \E x \in DOMAIN ids.bk : x # k /\ ids.bk[x] = h, << k, h >> >>,
                     << "C13.backing-alive", alive, << k, h >> >> >>
                  \o (IF alive THEN << << "C13.as-declared", obj[h].pr = Ev.pr, << k, obj[h].pr, Ev.pr >> >> >> ELSE << >>)
                  \o (IF alive /\ Ev.view
                      THEN << << "C13.view-of-its-image", << FALSE, Ev.img >> \in DOMAIN ids.bk => obj[h].par = {ids.bk[<< FALSE, Ev.img >>]}, << k, obj[h].par >> >> >>
                      ELSE IF alive THEN << << "C13.has-memory", h \in DOMAIN mem.bound, << k, h >> >> >> ELSE << >>))
        /\ ids' = [ids EXCEPT !.bk = LET b == Put(@, k, h)
                                     IN  IF alive /\ Ev.view THEN Put(b, << FALSE, Ev.img >>, CHOOSE x \in obj[h].par : TRUE) ELSE b,
                              !.own = LET new == ({k} \cup (IF Ev.view THEN {<< FALSE, Ev.img >>} ELSE {})) \ DOMAIN @
                                      IN  [x \in DOMAIN @ \cup new |-> IF x \in new THEN repl.og ELSE @[x]]]
  /\ UNCHANGED << sc, obj, mem, refs, flight, repl, reg >>

\* bk forgets the entries whose object was destroyed: the answer was announced before
Gone1 == /\ Is("gone1")
         /\ LET k == Key
                was == k \in DOMAIN ids.own /\ ids.own[k] = Ev.c
            IN /\ Report(<< << "C13.destroyed-iff-owned", Ev.r = was, << k, Ev.c, Ev.r >> >>,
                         << "C13.destroyed", Ev.r => k \notin DOMAIN ids.bk, << k, Ev.c >> >>,
                         << "C13.kept", ~Ev.r => (k \in DOMAIN ids.own => k \in DOMAIN ids.bk), << k, Ev.c >> >> >>)
                /\ ids' = [ids EXCEPT !.own = IF was THEN Drop(@, {k}) ELSE @]
         /\ UNCHANGED << sc, obj, mem, refs, flight, repl, reg >>

\* ---------------------------------------------------------------- samplers and quads
Sampler ==
  /\ Is("sampler")
  /\ LET k == << Ev.c, Ev.d >>
     IN /\ Report(<< << "C14.equal-sampler", k \in DOMAIN ids.smp => ids.smp[k] = Ev.h, << k, Ev.h >> >>,
                     << "C14.other-sampler", ~ \E x \in DOMAIN ids.smp : x # k /\ ids.smp[x] = Ev.h, << k, Ev.h >> >>,
                     << "C14.sampler-alive", Ev.h \in Live, << k, Ev.h >> >>,
                     << "C14.sampler-parameters", Ev.h \in Live => obj[Ev.h].pr = Ev.d, << k, Ev.h >> >> >>)
        /\ ids' = [ids EXCEPT !.smp = Put(@, k, Ev.h)]
  /\ UNCHANGED << sc, obj, mem, refs, flight, repl, reg >>

Quad ==
  /\ Is("quad")
  /\ LET q == << Ev.d[1], IF Ev.d[1] = 1 THEN Ev.d[2] ELSE 0, IF Ev.d[1] = 1 THEN Ev.d[3] ELSE 0 >>
         k == << Ev.c, Ev.d >>
         m == Get(mem.bound, Ev.h, 0)
     IN /\ Report(<< << "C14.equal-quad", k \in DOMAIN ids.quad => ids.quad[k] = Ev.h, << k, Ev.h >> >>,
                     << "C14.other-quad", ~ \E x \in DOMAIN ids.quad : ids.quad[x] = Ev.h /\ (x[1] # k[1] \/ x[2][1] # Ev.d[1] \/ (Ev.d[1] = 1 /\ x[2] # Ev.d)), << k, Ev.h >> >>,
                     << "C14.quad-alive", Ev.h \in Live /\ m \in Live /\ m = Ev.mem, << k, Ev.h >> >>,
                     << "C14.quad-layout", Ev.binds = QuadBinds /\ SetOf(Ev.attrs) = QuadAttrs(q[1]), << k, Ev.attrs >> >>,
                     << "C14.quad-flushed", m \in Live => Visible(m), << k, m, Get(mem.flushed, m, 0) >> >>,
                     << "C14.quad-geometry", m \in DOMAIN mem.data /\ QuadData(mem.data[m], q[1], q[2], q[3]), << k, Get(mem.data, m, 0) >> >> >>)
        /\ ids' = [ids EXCEPT !.quad = Put(@, k, Ev.h)]
  /\ UNCHANGED << sc, obj, mem, refs, flight, repl, reg >>

\* ---------------------------------------------------------------- registry
TypeNumber == [image |-> 10, buffer |-> 9, sampler |-> 21, fence |-> 7, pipeline |-> 19, rp |-> 18]
TypeName == [image |-> "VkImage", buffer |-> "VkBuffer", sampler |-> "VkSampler", fence |-> "VkFence", pipeline |-> "VkPipeline", rp |-> "VkRenderPass"]
RegOp == /\ (Is("reg") \/ Is("rename") \/ Is("unreg")) /\ NoReport
         /\ reg' = [user |-> IF Ev.e = "reg" THEN Put(reg.user, Ev.h, [t |-> Ev.t, name |-> Ev.name])
                             ELSE IF Ev.e = "unreg" THEN Drop(reg.user, {Ev.h}) ELSE reg.user,
                    pend |-> IF Ev.e = "unreg" THEN << >> ELSE << [h |-> Ev.h, t |-> TypeNumber[Ev.t], name |-> Ev.name] >>]
         /\ UNCHANGED << sc, obj, mem, refs, flight, repl, ids >>
Name == /\ Is("name") /\ NoReport
        /\ reg' = [reg EXCEPT !.pend = IF @ # << >> /\ @[1] = [h |-> Ev.h, t |-> Ev.t, name |-> Ev.name] THEN << >> ELSE @]
        /\ UNCHANGED << sc, obj, mem, refs, flight, repl, ids >>
RegDone == /\ Is("regDone")
           /\ Report(<< << "C28.named", reg.pend = << >>, reg.pend >> >>)
           /\ reg' = [reg EXCEPT !.pend = << >>]
           /\ UNCHANGED << sc, obj, mem, refs, flight, repl, ids >>
Leaks == /\ Is("leaks")
         /\ LET want == { << TypeName[reg.user[h].t], reg.user[h].name >> : h \in DOMAIN reg.user }
                got == SetOf(Ev.items)
            IN Report(<< << "C28.leaks-listed", want \subseteq got, want \ got >>,
                         << "C28.only-leaks-listed", got \subseteq want, got \ want >>,
                         << "C28.listed-once", Len(Ev.items) = Cardinality(DOMAIN reg.user), << Len(Ev.items) >> >> >>)
         /\ UNCHANGED << sc, ovars >>

Step == Scenario \/ New \/ Del \/ Touch \/ Upd \/ Rec \/ Cmd \/ Submit \/ Wait \/ Idle \/ Gone \/ Fin \/ Win \/ In \/ Replace \/ Ran
        \/ Ctx \/ Req \/ Bind \/ Unmap \/ Flush \/ MemType \/ Image \/ View \/ Backing \/ Gone1 \/ Sampler \/ Quad \/ RegOp \/ Name \/ RegDone \/ Leaks
Next == \/ Step /\ l' = l + 1
        \/ Finish /\ UNCHANGED << sc, viol, ovars >>
Spec == Init /\ [][Next]_<< l, sc, viol, ovars >>
=============================================================================
