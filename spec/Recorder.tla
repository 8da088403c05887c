------------------------------- MODULE Recorder -------------------------------
(* Conformance of recorded histories of record contexts used on their own: the   *)
(* barriers and actions asked from one, and what it says of the resources.        *)
EXTENDS Mon, TrackCore
VARIABLES decl,  \* images (depth, mips, combined depth/stencil), views, whether aspects have layouts of their own
          rec    \* record context -> [im: cell -> state, buf: buffer -> state, next: cell -> state, pipe: three pipeline states]

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e
Rule(n, ok, d) == << << n, ok, d >> >>
St(x) == [lay |-> x.lay, acc |-> SetOf(x.acc), st |-> SetOf(x.st)]
Bottom == [lay |-> "UNDEF", acc |-> {}, st |-> {"BOT"}]
New0 == [im |-> Track0, buf |-> EmptyFn, next |-> Track0, pipe |-> << Bottom, Bottom, Bottom >>]

Init == /\ l = 1 /\ sc = 0 /\ viol = << >> /\ CovInit
        /\ decl = [im |-> EmptyFn, sep |-> FALSE] /\ rec = EmptyFn
Scenario == /\ Is("scen") /\ sc' = Ev.s /\ NoReport /\ rec' = EmptyFn
            /\ decl' = [im |-> [k \in { Ev.images[n].id : n \in DOMAIN Ev.images } |-> CHOOSE x \in SetOf(Ev.images) : x.id = k], sep |-> Ev.sep]
Make == Is("rc") /\ rec' = Put(rec, Ev.id, New0) /\ UNCHANGED << sc, decl >> /\ NoReport

CellsOf(w) == Cells(w.img, decl.im[w.img], w.vt, w.r)
SetL == /\ Is("rcset") /\ UNCHANGED << sc, decl >> /\ NoReport
        /\ rec' = [rec EXCEPT ![Ev.id].im = TSet(@, CellsOf(Ev.w), St(Ev))]

\* what is said of the state of some cells
Told(t, cells, got, pre) ==
  LET k == Known(t, cells) IN
  CASE k = {} -> Rule(pre \o "untouched", got.lay = Undefined, << got >>)
    [] Cardinality(k) = 1 /\ cells \subseteq DOMAIN t -> Rule(pre \o "state", { got } = k, << got, k >>)
    [] Cardinality(k) = 1 -> Rule(pre \o "partly-known", got.lay = Undefined \/ got \in k, << got, k >>)
    [] OTHER -> Rule(pre \o "one-of-them", got.lay \in { x.lay : x \in k } \cup (IF cells \subseteq DOMAIN t THEN {} ELSE { Undefined }), << got, k >>)
Ask == /\ Is("rcget") /\ UNCHANGED << sc, decl, rec >>
       /\ Report(Told(rec[Ev.id].im, CellsOf(Ev.w), St(Ev), "C32."))
AskNext == /\ Is("rcnextget") /\ UNCHANGED << sc, decl, rec >>
           /\ Report(Told(rec[Ev.id].next, CellsOf(Ev.w), St(Ev), "C32.next-"))

\* ------------------------------------------------------------------ barriers
Writes == {"SH_W", "CO_W", "DS_W", "TR_W", "HO_W", "ME_W"}
\* what a layout given by the caller implies when nothing is known
Implied(lay) == CASE lay = "COLOR" -> {"CO_W"} [] lay = "DST" -> {"TR_W"} [] lay = "DS_ATT" -> {"DS_W"} [] OTHER -> {}
KnownAt(t, c) == c \in DOMAIN t /\ t[c].lay # Undefined
From(t, c, init) == IF KnownAt(t, c) THEN t[c] ELSE [lay |-> init, acc |-> Implied(init), st |-> {}]
Need(f, known, want, force) == force \/ f.lay # want.lay \/ f.acc \cap Writes # {} \/ (known /\ f # want)
FullAsp(im, asp) == IF ~decl.sep /\ im.ds /\ asp \cap {"D", "S"} # {} THEN {"D", "S"} ELSE asp
BCells(b) == IF b.img \notin DOMAIN decl.im THEN {} ELSE Cells(b.img, decl.im[b.img], 1, b.r)

\* one barrier among those of a request for some cells
Sound(t, b, cells, asp, init, pre) ==
  LET cs == BCells(b)
  IN Rule(pre \o "in-range", cs # {} /\ cs \subseteq cells, << b, cells >>)
     \o Rule(pre \o "aspects", SetOf(b.asp) = FullAsp(decl.im[(CHOOSE c \in cells : TRUE)[1]], asp), << b, asp >>)
     \o Rule(pre \o "from", \A c \in cs : b.old = From(t, c, init).lay, << b, init, [c \in cs \cap DOMAIN t |-> t[c]] >>)
     \o Rule(pre \o "after", \A c \in cs : LET f == From(t, c, init) IN f.acc \cap Writes \subseteq SetOf(b.sa) /\ f.st \subseteq SetOf(b.ss), << b, [c \in cs \cap DOMAIN t |-> t[c]] >>)
     \o Rule(pre \o "stages", b.ss # << >> /\ b.ds # << >>, << b >>)

Request ==
  LET t == rec[Ev.id].im
      cells == CellsOf(Ev.w)
      want == St(Ev)
      bs == Ev.bs
      hits(c) == Cardinality({ n \in DOMAIN bs : c \in BCells(bs[n]) })
      need == { c \in cells : Need(From(t, c, Ev.init), KnownAt(t, c), want, Ev.force) }
  IN /\ Report(FlattenSeq([n \in DOMAIN bs |->
                  Sound(t, bs[n], cells, SetOf(Ev.w.asp), Ev.init, "C32.barrier-")
                  \o Rule("C32.barrier-to", bs[n].new = want.lay /\ SetOf(bs[n].da) = want.acc /\ SetOf(bs[n].ds) = want.st, << bs[n], want >>)])
               \o Rule("C32.barrier-complete", \A c \in need : hits(c) >= 1, << Ev.w, want, { c \in need : hits(c) = 0 } >>)
               \o Rule("C32.barrier-once", \A c \in cells : hits(c) <= 1, << Ev.w, bs >>)
               \o Rule("C32.only-barriers", Ev.others = << >> /\ Ev.bufs = << >>, << Ev.others >>))
     /\ rec' = [rec EXCEPT ![Ev.id].im = TSet(@, { c \in cells : hits(c) > 0 \/ c \in need }, want)]
Bar == Is("rcbar") /\ Request /\ UNCHANGED << sc, decl >>

\* ------------------------------------------------------------------- buffers
SetB == /\ Is("rcbufset") /\ UNCHANGED << sc, decl >> /\ NoReport
        /\ rec' = [rec EXCEPT ![Ev.id].buf = Put(@, Ev.buf, [acc |-> SetOf(Ev.acc), st |-> SetOf(Ev.st)])]
AskB == /\ Is("rcbufget") /\ UNCHANGED << sc, decl, rec >>
        /\ LET k == rec[Ev.id].buf
               got == [acc |-> SetOf(Ev.acc), st |-> SetOf(Ev.st)]
           IN Report(IF Ev.buf \in DOMAIN k THEN Rule("C32.buffer-state", got = k[Ev.buf], << Ev, k >>)
                     ELSE Rule("C32.buffer-untouched", got.acc = {}, << Ev >>))
BarB ==
  /\ Is("rcbufbar") /\ UNCHANGED << sc, decl >>
  /\ LET k == rec[Ev.id].buf
         known == Ev.buf \in DOMAIN k
         init == [acc |-> SetOf(Ev.init[1]), st |-> SetOf(Ev.init[2])]
         f == IF known THEN k[Ev.buf] ELSE init
         want == [acc |-> SetOf(Ev.acc), st |-> SetOf(Ev.st)]
         need == Ev.force \/ f # want \/ f.acc \cap Writes # {}
         bs == Ev.bufs
     IN /\ Report(Rule("C32.buffer-complete", need => Len(bs) = 1, << Ev, f >>)
                  \o Rule("C32.buffer-once", Len(bs) <= 1 /\ Ev.bs = << >> /\ Ev.others = << >>, << Ev >>)
                  \o FlattenSeq([n \in DOMAIN bs |-> LET b == bs[n] IN
                       Rule("C32.buffer-which", b.b = Ev.buf, << Ev, b >>)
                       \o Rule("C32.buffer-range", b.off <= Ev.off /\ (b.size = -1 \/ (Ev.size # -1 /\ b.off + b.size >= Ev.off + Ev.size)), << Ev, b >>)
                       \o Rule("C32.buffer-after", f.acc \cap Writes \subseteq SetOf(b.sa) /\ f.st \subseteq SetOf(b.ss), << b, f >>)
                       \o Rule("C32.buffer-to", SetOf(b.da) = want.acc /\ SetOf(b.ds) = want.st, << b, want >>)]))
        /\ rec' = IF bs = << >> /\ ~need THEN rec ELSE [rec EXCEPT ![Ev.id].buf = Put(@, Ev.buf, want)]

\* states taken over from another record context, where it has none of its own
Add == /\ Is("rcadd") /\ UNCHANGED << sc, decl >> /\ NoReport
       /\ LET o == rec[Ev.from] IN
          rec' = [rec EXCEPT ![Ev.id] = [@ EXCEPT !.im = TMerge(@, o.im), !.buf = @ @@ o.buf]]

\* the states of the pipeline go from next to current to previous
Pipe == /\ Is("rcnext") /\ UNCHANGED << sc, decl >>
        /\ LET old == rec[Ev.id].pipe
               new == << old[2], old[3], St(Ev) >>
               told == [n \in 1..3 |-> St(Ev.pipe[n])]
           IN /\ Report(Rule("C32.pipeline", told[3] = new[3] /\ told[2] = new[2] /\ told[1] = new[1], << told, new >>))
              /\ rec' = [rec EXCEPT ![Ev.id] = [@ EXCEPT !.pipe = told,
                            !.next = FoldLeft(LAMBDA t, x : TSet(t, CellsOf(x.w), St(x)), Track0, Ev.lays)]]

\* ------------------------------------------------------------------- actions
\* the commands of an action, one after the other: barriers move the cells, the transfer or clear finds them in place
RECURSIVE Walk(_, _, _, _)
Walk(cs, n, t, out) ==
  IF n > Len(cs) THEN [t |-> t, out |-> out]
  ELSE LET x == cs[n]
           all == UNION { CellsOf(w) : w \in SetOf(Ev.ws) }
           own(c) == CHOOSE w \in SetOf(Ev.ws) : c \in CellsOf(w)
           in(w, lay, acc) == \A c \in CellsOf(w) : KnownAt(t, c) /\ t[c].lay = lay /\ acc \in t[c].acc /\ "TR" \in t[c].st
           last == Ev.ws[Len(Ev.ws)]
       IN IF x.c = "Barrier"
          THEN LET cs2 == BCells(x) IN
               Walk(cs, n + 1, TSet(t, cs2 \cap all, [lay |-> x.new, acc |-> SetOf(x.da), st |-> SetOf(x.ds)]),
                    out \o (IF cs2 \cap all = {} THEN Rule("C32.action-in-range", FALSE, << x >>)
                            ELSE LET w == own(CHOOSE c \in cs2 \cap all : TRUE) IN Sound(t, x, CellsOf(w), SetOf(w.asp), "UNDEF", "C32.action-")))
          ELSE Walk(cs, n + 1, t,
                    out \o Rule("C32.action-destination", in(last, "DST", "TR_W") /\ x.dl = "DST", << x, t >>)
                        \o (IF Len(Ev.ws) = 2 THEN Rule("C32.action-source", in(Ev.ws[1], "SRC", "TR_R") /\ x.sl = "SRC", << x, t >>) ELSE << >>))
Lays(w, k) == k = 1 \/ k = w.r[4]
Place(w, img, r, asp) == img = w.img /\ r[1] = w.r[1] /\ r[2] = 1 /\ r[3] = w.r[3] /\ Lays(w, r[4]) /\ SetOf(asp) = SetOf(w.asp)
Plus2(a, b) == << a[1] + b[1], a[2] + b[2] >>
XY(p) == << p[1], p[2] >>
Right(x) ==
  CASE Ev.do = "clear" -> LET w == Ev.ws[1] IN
         Rule("C32.clear", /\ x.c = (IF decl.im[w.img].ds THEN "ClearDS" ELSE "ClearColor") /\ x.img = w.img /\ Len(x.rs) = 1
                           /\ x.rs[1].r = w.r /\ SetOf(x.rs[1].asp) = SetOf(w.asp), << x, w >>)
         \o Rule("C32.clear-value", x.val = Ev.val, << x, Ev.val >>)
    [] Ev.do = "copy" -> LET r == x.rs[1] IN
         Rule("C32.copy", /\ x.c = "CopyImage" /\ Len(x.rs) = 1 /\ Place(Ev.ws[1], x.s, r.s, r.sa) /\ Place(Ev.ws[2], x.d, r.d, r.da)
                          /\ r.so = << 0, 0, 0 >> /\ r.do = << 0, 0, 0 >> /\ r.ext = << Ev.p.ext[1], Ev.p.ext[2], 1 >>, << x, Ev.ws, Ev.p >>)
    [] OTHER -> LET r == x.rs[1] IN
         Rule("C32.blit", /\ x.c = "Blit" /\ Len(x.rs) = 1 /\ x.filter = Ev.p.filter /\ Place(Ev.ws[1], x.s, r.s, r.sa) /\ Place(Ev.ws[2], x.d, r.d, r.da)
                          /\ r.so = << << Ev.p.so[1], Ev.p.so[2], 0 >>, << Ev.p.so[1] + Ev.p.se[1], Ev.p.so[2] + Ev.p.se[2], 1 >> >>
                          /\ r.do = << << Ev.p.dof[1], Ev.p.dof[2], 0 >>, << Ev.p.dof[1] + Ev.p.de[1], Ev.p.dof[2] + Ev.p.de[2], 1 >> >>, << x, Ev.ws, Ev.p >>)
Act ==
  /\ Is("rcact") /\ UNCHANGED << sc, decl >>
  /\ LET w == Walk(Ev.cmds, 1, rec[Ev.id].im, << >>)
         work == SelectSeq(Ev.cmds, LAMBDA x : x.c # "Barrier")
         dst == CellsOf(Ev.ws[Len(Ev.ws)])
     IN /\ Report(w.out
                  \o Rule("C32.action-one-command", Len(work) = 1, << Ev.do, work >>)
                  \o (IF Len(work) = 1 THEN Right(work[1]) ELSE << >>)
                  \o Rule("C32.action-final", \A c \in dst : KnownAt(w.t, c) /\ w.t[c].lay = (IF Ev.final = "UNDEF" THEN "DST" ELSE Ev.final), << Ev.final, w.t >>))
        /\ rec' = [rec EXCEPT ![Ev.id].im = w.t]

Step == Scenario \/ Make \/ SetL \/ Ask \/ AskNext \/ Bar \/ SetB \/ AskB \/ BarB \/ Add \/ Pipe \/ Act
Next == \/ Step /\ l' = l + 1
        \/ Finish /\ UNCHANGED << sc, viol, decl, rec >>
Spec == Init /\ [][Next]_<< l, sc, viol, decl, rec >>
=============================================================================
