-------------------------------- MODULE Sync --------------------------------
(* Layouts, contents and hazards of the images and buffers used by recorded   *)
(* frames:  C04 layouts   C05 contents kept   C06 final layouts               *)
(*          C07 image hazards   C08 buffer hazards   C10 declared clears      *)
EXTENDS Mon, SyncCore

VARIABLES lay,   \* layout of each subresource
          val,   \* "none" never written | "ok" | "lost" discarded since
          iw, ir,\* last write, reads since, per subresource
          bw, br,\* the same per buffer segment
          fr     \* the frame being recorded
svars == << lay, val, iw, ir, bw, br, fr >>

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
RS == DOMAIN lay
BS == DOMAIN bw

NoFrame == [n |-> 1, ever |-> {}, moved |-> {}, used |-> {}, clr |-> << >>, expect |-> << >>, rp |-> << >>, sep |-> FALSE]
Init == /\ l = 1 /\ sc = 0 /\ viol = << >> /\ CovInit
        /\ lay = << >> /\ val = << >> /\ iw = << >> /\ ir = << >> /\ bw = << >> /\ br = << >> /\ fr = NoFrame

Scenario == /\ Is("scen")
            /\ sc' = Ev.s
            /\ lay' = [i \in 1 .. Ev.nr |-> "UNDEF"]
            /\ val' = [i \in 1 .. Ev.nr |-> "none"]
            /\ iw' = [i \in 1 .. Ev.nr |-> NoWrite]
            /\ ir' = [i \in 1 .. Ev.nr |-> {}]
            /\ bw' = [i \in 1 .. Ev.nb |-> NoWrite]
            /\ br' = [i \in 1 .. Ev.nb |-> {}]
            /\ fr' = NoFrame
            /\ NoReport

\* A frame starts: what earlier submissions did is complete and visible.
\* Images declared as inputs of the graph are handed over in the declared layout.
RunBegin ==
  /\ Is("runBegin")
  /\ LET given == [r \in UNION { SetOf(x[1]) : x \in SetOf(Ev.ins) } |-> (CHOOSE x \in SetOf(Ev.ins) : r \in SetOf(x[1]))[2]]
     IN /\ lay' = [r \in RS |-> IF r \in DOMAIN given THEN given[r] ELSE lay[r]]
        /\ val' = [r \in RS |-> IF r \in DOMAIN given THEN "ok" ELSE val[r]]
  /\ iw' = [r \in RS |-> NoWrite] /\ ir' = [r \in RS |-> {}]
  /\ bw' = [b \in BS |-> NoWrite] /\ br' = [b \in BS |-> {}]
  /\ fr' = [NoFrame EXCEPT !.n = fr.n + 1, !.ever = fr.ever \cup fr.used \cup fr.moved]
  /\ NoReport /\ UNCHANGED sc

\* ---------------------------------------------------------------- barriers
Barrier ==
  /\ Is("bar")
  /\ LET ss == SetOf(Ev.ss) ds == SetOf(Ev.ds)
         src == SrcScope(ss) dst == DstScope(ds)
         img == Ev.img
         cover == UNION { SetOf(img[i].r) : i \in DOMAIN img }
         of == [r \in cover |-> CHOOSE i \in DOMAIN img : r \in SetOf(img[i].r)]
         bcov == UNION { SetOf(Ev.buf[i].b) : i \in DOMAIN Ev.buf }
         bof == [b \in bcov |-> CHOOSE i \in DOMAIN Ev.buf : b \in SetOf(Ev.buf[i].b)]
         sa == [i \in DOMAIN img |-> SetOf(img[i].sa)]
         da == [i \in DOMAIN img |-> SetOf(img[i].da)]
         lt(r) == img[of[r]].old # img[of[r]].new
         memw(w) == LET f[i \in 0 .. Len(Ev.mem)] == IF i = 0 THEN w ELSE MemDep(f[i - 1], ss, SetOf(Ev.mem[i][1]), ds, SetOf(Ev.mem[i][2])) IN f[Len(Ev.mem)]
         wrong == { r \in cover : img[of[r]].old \notin { "UNDEF", lay[r] } }
         unsafe == { r \in cover : lt(r) /\ ~LtSafe(iw[r], ir[r], ss, sa[of[r]]) }
         lose == { r \in cover : img[of[r]].old = "UNDEF" /\ val[r] = "ok" }
     IN /\ Report(<< << "C04.old-layout", wrong = {}, << wrong, [r \in wrong |-> << img[of[r]].old, lay[r] >>] >> >>,
                     << "C04.new-layout", \A r \in cover : img[of[r]].new \notin { "UNDEF", "PREINIT" }, << >> >>,
                     << "C04.aspects", \A i \in DOMAIN img : img[i].whole, << >> >>,
                     << "C07.transition", unsafe = {}, << unsafe, [r \in unsafe |-> iw[r]], [r \in unsafe |-> ir[r]], ss >> >> >>)
        /\ lay' = [r \in RS |-> IF r \in cover THEN img[of[r]].new ELSE lay[r]]
        /\ val' = [r \in RS |-> IF r \in lose THEN "lost" ELSE val[r]]
        /\ iw' = [r \in RS |->
                    IF r \in cover
                    THEN IF lt(r) THEN LtWrite(ds, da[of[r]], fr.n)
                         ELSE Chain(MemDep(memw(iw[r]), ss, sa[of[r]], ds, da[of[r]]), src, dst)
                    ELSE Chain(memw(iw[r]), src, dst)]
        /\ ir' = [r \in RS |-> IF r \in cover /\ lt(r) THEN {} ELSE { Chain(x, src, dst) : x \in ir[r] }]
        /\ bw' = [b \in BS |->
                    IF b \in bcov
                    THEN Chain(MemDep(memw(bw[b]), ss, SetOf(Ev.buf[bof[b]].sa), ds, SetOf(Ev.buf[bof[b]].da)), src, dst)
                    ELSE Chain(memw(bw[b]), src, dst)]
        /\ br' = [b \in BS |-> { Chain(x, src, dst) : x \in br[b] }]
        /\ fr' = [fr EXCEPT !.moved = @ \cup cover]
        /\ UNCHANGED sc

\* ------------------------------------------------------------- plain access
ImgWrites(R, st, acc) == [r \in RS |-> IF r \in R THEN NewWrite(st, acc, fr.n) ELSE iw[r]]

RdChk(rule, R, st, acc) ==
  LET bad == { r \in R : ~SeesWrite(iw[r], st, acc, fr.n) }
  IN << rule, bad = {}, << "read", bad, st, acc, [r \in bad |-> iw[r]] >> >>
WrChk(rule, R, st, acc) ==
  LET bad == { r \in R : ~SeesWrite(iw[r], st, acc, fr.n) \/ ~AfterReads(ir[r], st, fr.n) }
  IN << rule, bad = {}, << "write", bad, st, acc, [r \in bad |-> << iw[r], ir[r] >>] >> >>
BRdChk(rule, R, st, acc) ==
  LET bad == { b \in R : ~SeesWrite(bw[b], st, acc, fr.n) }
  IN << rule, bad = {}, << "read", bad, st, acc, [b \in bad |-> bw[b]] >> >>
BWrChk(rule, R, st, acc) ==
  LET bad == { b \in R : ~SeesWrite(bw[b], st, acc, fr.n) \/ ~AfterReads(br[b], st, fr.n) }
  IN << rule, bad = {}, << "write", bad, st, acc, [b \in bad |-> << bw[b], br[b] >>] >> >>

ImgClear(R) == [r |-> R, b |-> << >>]
BufClear(b) == [r |-> {}, b |-> b]

\* clear of image subresources (implicit actions and declared clears alike)
Clear ==
  /\ Is("clr")
  /\ LET R == SetOf(Ev.r)
         bad == { r \in R : lay[r] # Ev.lay }
         impl == fr.expect # << >> /\ fr.expect[1] = ImgClear(R)
     IN /\ Report(<< << "C04.command-layout", bad = {} /\ Ev.lay \in { "DST", "GENERAL" }, << "clear", bad, Ev.lay >> >>,
                     WrChk("C07.clear", R, {"TR"}, {"TR_W"}),
                     << "C10.zero", impl \/ Ev.zero, << R >> >>,
                     << "C10.suits", impl \/ Ev.suits, << R >> >> >>)
        /\ iw' = ImgWrites(R, {"TR"}, {"TR_W"})
        /\ ir' = [r \in RS |-> IF r \in R THEN {} ELSE ir[r]]
        /\ val' = [r \in RS |-> IF r \in R THEN "ok" ELSE val[r]]
        /\ fr' = [fr EXCEPT !.clr = IF impl THEN @ ELSE Append(@, ImgClear(R)),
                            !.expect = IF impl THEN Tail(@) ELSE @]
  /\ UNCHANGED << sc, lay, bw, br >>

Fill ==
  /\ Is("fill")
  /\ LET B == SetOf(Ev.b)
     IN /\ Report(<< BWrChk("C08.clear", B, {"TR"}, {"TR_W"}), << "C10.zero", Ev.zero, << B >> >> >>)
        /\ bw' = [b \in BS |-> IF b \in B THEN NewWrite({"TR"}, {"TR_W"}, fr.n) ELSE bw[b]]
        /\ br' = [b \in BS |-> IF b \in B THEN {} ELSE br[b]]
        /\ fr' = [fr EXCEPT !.clr = Append(@, BufClear(<< Ev.buf, Ev.off, Ev.size >>))]
  /\ UNCHANGED << sc, lay, val, iw, ir >>

\* copies and blits
Transfer ==
  /\ Is("xfer")
  /\ LET S == SetOf(Ev.src) D == SetOf(Ev.dst) SB == SetOf(Ev.sb) DB == SetOf(Ev.db)
         badS == { r \in S : lay[r] # Ev.sl }
         badD == { r \in D : lay[r] # Ev.dl }
     IN /\ Report(<< << "C04.command-layout", badS = {} /\ (S = {} \/ Ev.sl \in { "SRC", "GENERAL" }), << "source", badS, Ev.sl, [r \in badS |-> lay[r]] >> >>,
                     << "C04.command-layout", badD = {} /\ (D = {} \/ Ev.dl \in { "DST", "GENERAL" }), << "destination", badD, Ev.dl, [r \in badD |-> lay[r]] >> >>,
                     << "C05.source-kept", \A r \in S : val[r] # "lost", << S >> >>,
                     RdChk("C07.transfer", S, {"TR"}, {"TR_R"}),
                     WrChk("C07.transfer", D, {"TR"}, {"TR_W"}),
                     BRdChk("C08.transfer", SB, {"TR"}, {"TR_R"}),
                     BWrChk("C08.transfer", DB, {"TR"}, {"TR_W"}) >>)
        /\ iw' = ImgWrites(D, {"TR"}, {"TR_W"})
        /\ ir' = [r \in RS |-> IF r \in D THEN {} ELSE IF r \in S THEN AddRead(ir[r], {"TR"}, fr.n) ELSE ir[r]]
        /\ val' = [r \in RS |-> IF r \in D THEN "ok" ELSE val[r]]
        /\ bw' = [b \in BS |-> IF b \in DB THEN NewWrite({"TR"}, {"TR_W"}, fr.n) ELSE bw[b]]
        /\ br' = [b \in BS |-> IF b \in DB THEN {} ELSE IF b \in SB THEN AddRead(br[b], {"TR"}, fr.n) ELSE br[b]]
  /\ UNCHANGED << sc, lay, fr >>

\* An implicit action starts: it may clear its view.
Implicit ==
  /\ Is("implicit")
  /\ fr' = [fr EXCEPT !.n = @ + 1, !.expect = IF Ev.clears THEN << ImgClear(SetOf(Ev.r)) >> ELSE << >>, !.used = @ \cup SetOf(Ev.r)]
  /\ NoReport /\ UNCHANGED << sc, lay, val, iw, ir, bw, br >>
ImplicitEnd ==
  /\ Is("implicitEnd")
  /\ fr' = [fr EXCEPT !.n = @ + 1, !.expect = << >>]
  /\ NoReport /\ UNCHANGED << sc, lay, val, iw, ir, bw, br >>

\* The commands of a pass start here: everything it declared must be ready.
\* Each image use: [r, lay, st, acc, in, out]; each buffer use: [b, st, acc, in, out].
Begin ==
  /\ Is("begin")
  /\ LET us == Ev.uses bs == Ev.bufs
         R(i) == SetOf(us[i].r)
         St(i) == SetOf(us[i].st)
         Ac(i) == SetOf(us[i].acc)
         badLay == { i \in DOMAIN us : us[i].lay # "" /\ \E r \in R(i) : lay[r] # us[i].lay }
         lostR == { i \in DOMAIN us : us[i].in /\ \E r \in R(i) : val[r] = "lost" }
         outR == UNION { R(i) : i \in { i \in DOMAIN us : us[i].out } }
         outB == UNION { SetOf(bs[i].b) : i \in { i \in DOMAIN bs : bs[i].out } }
         stOf(r, o) == UNION { St(i) : i \in { i \in DOMAIN us : r \in R(i) /\ us[i].out = o /\ us[i].st # << >> } }
         acOf(r) == UNION { Ac(i) : i \in { i \in DOMAIN us : r \in R(i) } } \cap Writes
         bst(b, o) == UNION { SetOf(bs[i].st) : i \in { i \in DOMAIN bs : b \in SetOf(bs[i].b) /\ bs[i].out = o } }
         bac(b) == UNION { SetOf(bs[i].acc) : i \in { i \in DOMAIN bs : b \in SetOf(bs[i].b) } } \cap Writes
         clears == [i \in DOMAIN Ev.clears |-> IF Ev.clears[i].k = "i" THEN ImgClear(SetOf(Ev.clears[i].r)) ELSE BufClear(Ev.clears[i].r)]
         count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
         use(i) == IF us[i].st = << >> THEN << >>
                   ELSE IF us[i].out THEN << WrChk("C07.use", R(i), St(i), Ac(i)) >>
                   ELSE << RdChk("C07.use", R(i), St(i), Ac(i)) >>
         buse(i) == IF bs[i].out THEN << BWrChk("C08.use", SetOf(bs[i].b), SetOf(bs[i].st), SetOf(bs[i].acc)) >>
                    ELSE << BRdChk("C08.use", SetOf(bs[i].b), SetOf(bs[i].st), SetOf(bs[i].acc)) >>
         All[i \in 0 .. Len(us)] == IF i = 0 THEN << >> ELSE All[i - 1] \o use(i)
         BAll[i \in 0 .. Len(bs)] == IF i = 0 THEN << >> ELSE BAll[i - 1] \o buse(i)
     IN /\ Report(<< << "C04.declared-layout", badLay = {}, [i \in badLay |-> << us[i].r, us[i].lay, [r \in R(i) |-> lay[r]] >>] >>,
                     << "C05.input-kept", lostR = {}, [i \in lostR |-> us[i].r] >>,
                     << "C10.cleared", \A x \in SetOf(clears) : count(fr.clr, x) = count(clears, x), << fr.clr, clears >> >>,
                     << "C10.nothing-else", \A x \in SetOf(fr.clr) : x \in SetOf(clears), << fr.clr, clears >> >> >>
                  \o All[Len(us)] \o BAll[Len(bs)])
        /\ iw' = [r \in RS |-> IF r \in outR /\ stOf(r, TRUE) # {} THEN NewWrite(stOf(r, TRUE), acOf(r), fr.n) ELSE iw[r]]
        /\ ir' = [r \in RS |-> IF r \in outR /\ stOf(r, TRUE) # {} THEN {}
                               ELSE IF stOf(r, FALSE) # {} THEN AddRead(ir[r], stOf(r, FALSE), fr.n) ELSE ir[r]]
        /\ bw' = [b \in BS |-> IF b \in outB THEN NewWrite(bst(b, TRUE), bac(b), fr.n) ELSE bw[b]]
        /\ br' = [b \in BS |-> IF b \in outB THEN {} ELSE IF bst(b, FALSE) # {} THEN AddRead(br[b], bst(b, FALSE), fr.n) ELSE br[b]]
        /\ val' = [r \in RS |-> IF r \in outR THEN "ok" ELSE val[r]]
        /\ fr' = [fr EXCEPT !.used = @ \cup UNION { R(i) : i \in DOMAIN us }, !.clr = << >>]
  /\ UNCHANGED << sc, lay >>

End == /\ Is("end")
       /\ Report(<< << "C10.nothing-else", fr.clr = << >>, << fr.clr >> >> >>)
       /\ fr' = [fr EXCEPT !.n = @ + 1, !.clr = << >>]
       /\ UNCHANGED << sc, lay, val, iw, ir, bw, br >>

\* ------------------------------------------------------------ render passes
\* Attachment: [r, keep, init, sub, final, load, store, want, in, out, ds]
AttSt(a) == IF a.ds THEN {"EF", "LF"} ELSE {"CO"}
AttR(a) == IF a.ds THEN {"DS_R"} ELSE {"CO_R"}
AttW(a) == IF a.ds THEN {"DS_W"} ELSE {"CO_W"}

DepIn(d) == { d[i] : i \in { i \in DOMAIN d : d[i].s = -1 /\ d[i].d = 0 } }
DepOut(d) == { d[i] : i \in { i \in DOMAIN d : d[i].s = 0 /\ d[i].d = -1 } }
USt(D, f) == UNION { SetOf(IF f = "ss" THEN x.ss ELSE IF f = "ds" THEN x.ds ELSE IF f = "sa" THEN x.sa ELSE x.da) : x \in D }

\* Apply the dependencies D to every resource.
DepAll(w, D) ==
  LET S == SetToSeq(D)
      f[i \in 0 .. Len(S)] ==
        IF i = 0 THEN w
        ELSE Chain(MemDep(f[i - 1], SetOf(S[i].ss), SetOf(S[i].sa), SetOf(S[i].ds), SetOf(S[i].da)), SrcScope(SetOf(S[i].ss)), DstScope(SetOf(S[i].ds)))
  IN f[Len(S)]
DepRd(x, D) ==
  LET S == SetToSeq(D)
      f[i \in 0 .. Len(S)] == IF i = 0 THEN x ELSE Chain(f[i - 1], SrcScope(SetOf(S[i].ss)), DstScope(SetOf(S[i].ds)))
  IN f[Len(S)]

RpBegin ==
  /\ Is("rpb")
  /\ LET as == Ev.atts
         D == DepIn(Ev.deps)
         ss == IF D = {} THEN {"TOP"} ELSE USt(D, "ss")
         sa == USt(D, "sa") ds == IF D = {} THEN {"ALLC"} ELSE USt(D, "ds")
         da == IF D = {} THEN {"CO_R", "CO_W", "DS_R", "DS_W", "INPUT"} ELSE USt(D, "da")
         cover == UNION { SetOf(as[i].r) : i \in DOMAIN as }
         of == [r \in cover |-> CHOOSE i \in DOMAIN as : r \in SetOf(as[i].r)]
         a(r) == as[of[r]]
         trans == { r \in cover : a(r).init # a(r).sub }
         wrong == { r \in cover : a(r).init \notin { "UNDEF", lay[r] } }
         kept == UNION { SetOf(as[i].keep) : i \in DOMAIN as }   \* the aspects the attachment declares
         drop == { r \in kept : a(r).in /\ val[r] = "ok" /\ (a(r).init = "UNDEF" \/ a(r).load # "LOAD") }
         lostIn == { r \in kept : a(r).in /\ val[r] = "lost" }
         unsafe == { r \in trans : ~LtSafe(iw[r], ir[r], ss, sa) }
         w1(r) == IF r \in trans THEN LtWrite(ds, da, fr.n) ELSE DepAll(iw[r], D)
         r1(r) == IF r \in trans THEN {} ELSE { DepRd(x, D) : x \in ir[r] }
         \* the load operation and the subpass access
         needR(r) == a(r).load = "LOAD"
         needW(r) == a(r).out \/ a(r).load # "LOAD"
         first(r) == IF a(r).ds THEN {"EF"} ELSE {"CO"}
         badR == { r \in cover : needR(r) /\ ~SeesWrite(w1(r), first(r), AttR(a(r)), fr.n) }
         badW == { r \in cover : needW(r) /\ (~SeesWrite(w1(r), AttSt(a(r)), AttW(a(r)), fr.n) \/ ~AfterReads(r1(r), first(r), fr.n)) }
         misfit == { i \in DOMAIN as : as[i].want \notin { "", as[i].sub } }
     IN /\ Report(<< << "C04.attachment-layout", misfit = {}, [i \in misfit |-> << as[i].sub, as[i].want >>] >>,
                     << "C04.initial-layout", wrong = {}, << wrong, [r \in wrong |-> << a(r).init, lay[r] >>] >> >>,
                     << "C05.attachment-kept", drop = {} /\ lostIn = {}, << drop, lostIn, [r \in drop |-> << a(r).init, a(r).load >>] >> >>,
                     << "C07.transition", unsafe = {}, << unsafe, [r \in unsafe |-> << iw[r], ir[r] >>], ss, sa >> >>,
                     << "C07.attachment", badR = {}, << "read", badR, [r \in badR |-> << w1(r), AttR(a(r)) >>] >> >>,
                     << "C07.attachment", badW = {}, << "write", badW, [r \in badW |-> << w1(r), r1(r), AttW(a(r)) >>] >> >> >>)
        /\ lay' = [r \in RS |-> IF r \in cover THEN a(r).sub ELSE lay[r]]
        /\ iw' = [r \in RS |-> IF r \notin cover THEN DepAll(iw[r], D)
                               ELSE IF needW(r) THEN NewWrite(AttSt(a(r)), AttW(a(r)), fr.n)
                               ELSE w1(r)]
        /\ ir' = [r \in RS |-> IF r \notin cover THEN { DepRd(x, D) : x \in ir[r] }
                               ELSE IF needW(r) THEN {} ELSE AddRead(r1(r), AttSt(a(r)), fr.n)]
        /\ bw' = [b \in BS |-> DepAll(bw[b], D)]
        /\ br' = [b \in BS |-> { DepRd(x, D) : x \in br[b] }]
        /\ val' = [r \in RS |-> IF r \in kept THEN IF ~a(r).out THEN val[r]
                                                   ELSE IF a(r).store = "STORE" THEN "ok" ELSE "lost" ELSE val[r]]
        /\ fr' = [fr EXCEPT !.rp = << Ev >>, !.used = @ \cup cover]
  /\ UNCHANGED sc

RpEnd ==
  /\ Is("rpe") /\ fr.rp # << >>
  /\ LET rp == fr.rp[1]
         as == rp.atts
         D == DepOut(rp.deps)
         ss == IF D = {} THEN {"ALLC"} ELSE USt(D, "ss")
         sa == IF D = {} THEN {"CO_R", "CO_W", "DS_R", "DS_W", "INPUT"} ELSE USt(D, "sa")
         ds == IF D = {} THEN {"BOT"} ELSE USt(D, "ds")
         da == USt(D, "da")
         cover == UNION { SetOf(as[i].r) : i \in DOMAIN as }
         of == [r \in cover |-> CHOOSE i \in DOMAIN as : r \in SetOf(as[i].r)]
         a(r) == as[of[r]]
         trans == { r \in cover : a(r).final # a(r).sub }
         unsafe == { r \in trans : ~LtSafe(iw[r], ir[r], ss, sa) }
     IN /\ Report(<< << "C07.transition", unsafe = {}, << "final", unsafe, [r \in unsafe |-> << iw[r], ir[r] >>], ss, sa >> >>,
                     << "C04.final-layout", \A r \in cover : a(r).final \notin { "UNDEF", "PREINIT" }, << >> >> >>)
        /\ lay' = [r \in RS |-> IF r \in cover THEN a(r).final ELSE lay[r]]
        /\ iw' = [r \in RS |-> IF r \in trans THEN LtWrite(ds, da, fr.n) ELSE DepAll(iw[r], D)]
        /\ ir' = [r \in RS |-> IF r \in trans THEN {} ELSE { DepRd(x, D) : x \in ir[r] }]
        /\ bw' = [b \in BS |-> DepAll(bw[b], D)]
        /\ br' = [b \in BS |-> { DepRd(x, D) : x \in br[b] }]
        /\ fr' = [fr EXCEPT !.rp = << >>]
  /\ UNCHANGED << sc, val >>

\* ------------------------------------------------------------------ results
RunEnd ==
  /\ Is("runEnd")
  /\ LET bad == { o \in SetOf(Ev.outs) : SetOf(o[1]) \cap fr.used # {} /\ \E r \in SetOf(o[1]) \cap fr.used : lay[r] # o[2] }
     IN Report(<< << "C06.output-layout", bad = {}, [o \in bad |-> [r \in SetOf(o[1]) |-> lay[r]]] >>,
                  << "C04.frame-recorded", Ev.ok, << Ev.err >> >>,
                  << "C10.nothing-else", fr.clr = << >>, << fr.clr >> >> >>)
  /\ UNCHANGED << sc, svars >>

Final ==
  /\ Is("final")
  /\ LET R == SetOf(Ev.r)
         now == { lay[r] : r \in R }
     IN Report(<< << "C06.reported-layout", (R \subseteq fr.used /\ Cardinality(now) = 1) => now = { Ev.lay }, << Ev.r, now, Ev.lay >> >>,
                  \* no frame has used any of it
                  << "C06.reported-layout", R \cap (fr.used \cup fr.ever \cup fr.moved) = {} => Ev.lay = "UNDEF", << Ev.r, "unused", Ev.lay >> >> >>)
  /\ UNCHANGED << sc, svars >>

Step == \/ Scenario \/ RunBegin \/ Barrier \/ Clear \/ Fill \/ Transfer \/ Implicit \/ ImplicitEnd \/ Begin \/ End
        \/ RpBegin \/ RpEnd \/ RunEnd \/ Final
Next == \/ Step /\ l' = l + 1
        \/ Finish /\ UNCHANGED << sc, viol, svars >>
Spec == Init /\ [][Next]_<< l, sc, viol, svars >>
=============================================================================
