------------------------------- MODULE Passes -------------------------------
(* What each kind of pass records for what it was declared and configured.   *)
(*   C11 render passes and framebuffers    C19 descriptors    C20 dispatches *)
(*   C21 draws    C22 mip levels    C23 copies and blits                     *)
(* The commands of a pass are collected while it is recorded and judged when *)
(* its recording ends, against its declaration.                              *)
EXTENDS Mon, Geom, Bitwise

VARIABLES decl,   \* declarations: passes, images, buffers
          objs,   \* device objects: handle -> description
          win,    \* the pass being recorded and its commands
          prog,   \* pass -> current programs
          val,    \* pass -> values its callbacks return
          desc,   \* descriptor set -> binding -> content
          pend    \* subresources whose levels were generated, waiting for their next user

pvars == << decl, objs, win, prog, val, desc, pend >>

Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e
NoWin == [p |-> 0, i |-> 0, cmds |-> << >>]
NoDecl == [pass |-> EmptyFn, im |-> EmptyFn, buf |-> EmptyFn]

Init == /\ l = 1 /\ sc = 0 /\ viol = << >> /\ CovInit
        /\ decl = NoDecl /\ objs = EmptyFn /\ win = NoWin /\ prog = EmptyFn /\ val = EmptyFn /\ desc = EmptyFn /\ pend = EmptyFn

ById(s) == [k \in { s[i].id : i \in DOMAIN s } |-> s[CHOOSE i \in DOMAIN s : s[i].id = k]]
Scenario == /\ Is("scen") /\ sc' = Ev.s /\ NoReport
            /\ LET ps == ById(Ev.passes) IN
               /\ decl' = [pass |-> ps, im |-> ById(Ev.images), buf |-> EmptyFn]
               /\ prog' = [p \in DOMAIN ps |-> ps[p].c.progs]
               /\ val' = [p \in DOMAIN ps |-> [g |-> << 1, 1, 1 >>, prim |-> 1, verts |-> 1, itype |-> 1]]
            /\ objs' = EmptyFn /\ win' = NoWin /\ desc' = EmptyFn /\ pend' = EmptyFn

\* ---------------------------------------------------------------- declarations
VAt(a, i) == IF Len(a.vs) = 1 THEN a.vs[1] ELSE a.vs[i + 1]
BAt(b, i) == LET hs == decl.buf[b] IN IF Len(hs) = 1 THEN hs[1] ELSE hs[i + 1]
ProgOf(p, i) == IF Len(prog[p]) = 1 THEN prog[p][1] ELSE prog[p][i + 1]
Pow2(n) == IF n = 0 THEN 1 ELSE 2 ^ n
Shrink(x, n) == Max2(1, x \div Pow2(n))
LevelExt(im, m) == LET e == decl.im[im].ext IN << Shrink(e[1], m), Shrink(e[2], m), Shrink(e[3], m) >>
Attached == {"colour", "depth", "stencil", "ds"}
IsImg(a) == Len(a.vs) > 0
Targets(P) == SelectSeq(P.atts, LAMBDA a : a.use \in Attached)
Colours(P) == SelectSeq(P.atts, LAMBDA a : a.use = "colour")
Depths(P) == SelectSeq(P.atts, LAMBDA a : a.use \in Attached \ {"colour"})

\* ---------------------------------------------------------------- objects
D(h) == IF h \in DOMAIN objs THEN objs[h] ELSE [k |-> "none"]
IsK(h, k) == D(h).k = k
Obj == /\ Is("obj") /\ NoReport
       /\ objs' = Put(objs, Ev.h, IF Ev.d.k = "graphics" THEN Ev.d @@ [rpd |-> D(Ev.d.rp)] ELSE Ev.d)
       /\ desc' = Drop(desc, {Ev.h})
       /\ UNCHANGED << sc, decl, win, prog, val, pend >>
Del == /\ Is("del") /\ NoReport
       /\ objs' = Drop(objs, {Ev.h})
       /\ UNCHANGED << sc, decl, win, prog, val, desc, pend >>
Buffer == /\ Is("buffer") /\ NoReport
          /\ decl' = [decl EXCEPT !.buf = Put(@, Ev.id, Ev.hs)]
          /\ UNCHANGED << sc, objs, win, prog, val, desc, pend >>
\* the content of a buffer created by the library
Data == /\ Is("data") /\ NoReport
        /\ objs' = Put(objs, Ev.h, [k |-> "Buffer", data |-> Ev.data])
        /\ UNCHANGED << sc, decl, win, prog, val, desc, pend >>
SetVal == /\ Is("set") /\ NoReport
          /\ val' = Put(val, Ev.p, [g |-> Ev.g, prim |-> Ev.prim, verts |-> Ev.verts, itype |-> Ev.itype])
          /\ UNCHANGED << sc, decl, objs, win, prog, desc, pend >>
Reset == /\ Is("reset") /\ NoReport
         /\ prog' = IF Ev.prog = << >> THEN prog
                    ELSE [prog EXCEPT ![Ev.p] = [@ EXCEPT ![IF Len(@) = 1 THEN 1 ELSE Ev.i + 1] = Ev.prog]]
         /\ UNCHANGED << sc, decl, objs, win, val, desc, pend >>

\* ---------------------------------------------------------------- descriptors
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, S)
SetsOf(pool) == { h \in DOMAIN objs : IsK(h, "Set") /\ objs[h].pool = pool }
Binds(h) == IF IsK(h, "SetLayout") THEN D(h).binds ELSE << >>
TypesIn(layout, t) == Cardinality({ i \in DOMAIN Binds(layout) : Binds(layout)[i][2] = t })
Alloc ==
  /\ Is("alloc")
  /\ LET P == IF IsK(Ev.pool, "Pool") THEN D(Ev.pool) ELSE [max |-> 0, sizes |-> << >>]
         old == SetsOf(Ev.pool)
         n == Len(Ev.sets)
         need(t) == SumOver(old, LAMBDA s : TypesIn(objs[s].layout, t)) + SumOver(1..n, LAMBDA i : TypesIn(Ev.layouts[i], t))
         size(t) == SumOver({ i \in DOMAIN P.sizes : P.sizes[i][1] = t }, LAMBDA i : P.sizes[i][2])
     IN Report(<< << "C19.pool-sets", Cardinality(old) + n <= P.max, << Ev.pool, P.max >> >>,
                  << "C19.pool-descriptors", \A t \in UNION { { b[2] : b \in SetOf(Binds(Ev.layouts[i])) } : i \in 1..n } : need(t) <= size(t), << Ev.pool, P.sizes >> >> >>)
  /\ objs' = [h \in SetOf(Ev.sets) |-> [k |-> "Set", pool |-> Ev.pool, layout |-> Ev.layouts[CHOOSE i \in DOMAIN Ev.sets : Ev.sets[i] = h]]] @@ objs
  /\ desc' = [h \in SetOf(Ev.sets) |-> EmptyFn] @@ desc
  /\ UNCHANGED << sc, decl, win, prog, val, pend >>
\* what is written is kept with what it designates at that moment
Content(w) == [t |-> w.t, ok |-> ~w.bad /\ w.n = 1 /\ w.el = 0,
               smp |-> IF w.img # << >> /\ w.t = 1 THEN D(w.img[1][1]) ELSE [k |-> "none"],
               view |-> IF w.img # << >> THEN D(w.img[1][2]) ELSE [k |-> "none"],
               lay |-> IF w.img # << >> THEN w.img[1][3] ELSE "",
               buf |-> IF w.buf # << >> THEN w.buf[1] ELSE << >>,
               tex |-> IF w.tex # << >> THEN w.tex[1] ELSE 0]
RECURSIVE Written(_, _, _)
Written(f, ws, i) == IF i > Len(ws) THEN f
                     ELSE Written(Put(f, ws[i].set, Put(Get(f, ws[i].set, EmptyFn), ws[i].b, Content(ws[i]))), ws, i + 1)
Update == /\ Is("update") /\ NoReport
          /\ desc' = Written(desc, Ev.ws, 1)
          /\ UNCHANGED << sc, decl, objs, win, prog, val, pend >>

Bound(P) == SelectSeq(P.atts, LAMBDA a : a.dt # -1)
Wanted(a, i) == [t |-> a.dt, ok |-> TRUE,
                 smp |-> IF a.dt = 1 THEN [k |-> "Sampler", d |-> a.samp] ELSE [k |-> "none"],
                 view |-> IF IsImg(a) THEN [k |-> "ImageView", d |-> VAt(a, i)] ELSE [k |-> "none"],
                 lay |-> IF a.dt = 1 THEN "SHADER_RO" ELSE IF a.dt = 3 THEN "GENERAL" ELSE "",
                 buf |-> IF ~IsImg(a) /\ a.bv = 0 THEN << BAt(a.buf[1], i), a.buf[2], a.buf[3] >> ELSE << >>,
                 tex |-> a.bv]

\* ---------------------------------------------------------------- collected commands
W == win.cmds
P0 == decl.pass[win.p]
I0 == win.i
Sel(cs) == { n \in DOMAIN W : W[n].c \in cs }
One(S) == Cardinality(S) = 1
The(S) == CHOOSE x \in S : TRUE
LastOf(S, n) == LET T == { x \in S : x < n } IN IF T = {} THEN 0 ELSE Max(T)
Draws == {"Draw", "DrawIndexed", "DrawIndirect", "DrawIndexedIndirect"}
Dispatches == {"Dispatch", "DispatchIndirect"}
Work == Draws \cup Dispatches
Rule(r, holds, d) == << << r, holds, d >> >>
Who == << win.p, P0.kind, I0 >>

\* the descriptors and the pipeline bound for command n
StageNeed(kind) == IF kind = "compute" THEN 32 ELSE 17
Binding(n) ==
  LET bp == LastOf(Sel({"BindPipeline"}), n)
      bs == LastOf(Sel({"BindSets"}), n)
      pt == IF P0.kind = "compute" THEN 1 ELSE 0
      pipe == IF bp = 0 THEN 0 ELSE W[bp].p
      set == IF bs = 0 \/ Len(W[bs].sets) # 1 THEN 0 ELSE W[bs].sets[1]
      lay == IF IsK(pipe, "graphics") \/ IsK(pipe, "compute") THEN D(pipe).layout ELSE 0
      own == IF IsK(set, "Set") THEN D(set).layout ELSE 0
      want == { << a.bind, a.dt, 1 >> : a \in SetOf(Bound(P0)) }
      got == IF IsK(own, "SetLayout") THEN { << b[1], b[2], b[3] >> : b \in SetOf(D(own).binds) } ELSE {<< -1, -1, -1 >>}
      content == Get(desc, set, EmptyFn)
  IN Rule("C19.bound", bp # 0 /\ bs # 0 /\ W[bs].first = 0 /\ W[bs].dyn = 0 /\ W[bp].bp = pt /\ W[bs].bp = pt /\ lay # 0 /\ W[bs].layout = lay, << Who, pipe, set >>)
     \o Rule("C19.pipeline-layout", IsK(lay, "PipelineLayout") /\ D(lay).sets = << own >> \o P0.c.layouts /\ D(lay).push = P0.c.push, << Who, lay, own, D(lay) >>)
     \o Rule("C19.bindings", got = want /\ Len(D(own).binds) = Cardinality(want), << Who, got, want >>)
     \o Rule("C19.stages", IsK(own, "SetLayout") => \A b \in SetOf(D(own).binds) : (b[4] & StageNeed(P0.kind)) = StageNeed(P0.kind), << Who, D(own) >>)
     \o Rule("C19.only-declared", DOMAIN content \subseteq { x[1] : x \in want }, << Who, DOMAIN content >>)
     \o FlattenSeq([k \in DOMAIN Bound(P0) |->
          LET a == Bound(P0)[k] IN
          Rule(IF IsImg(a) THEN "C19.image" ELSE IF a.bv # 0 THEN "C19.texel-buffer" ELSE "C19.buffer",
               a.bind \in DOMAIN content /\ content[a.bind] = Wanted(a, I0), << Who, a.bind, Get(content, a.bind, 0), Wanted(a, I0) >>)])
BoundPipe(n) == LET bp == LastOf(Sel({"BindPipeline"}), n) IN IF bp = 0 THEN 0 ELSE W[bp].p
Stages(s) == { << x[1], x[2] >> : x \in SetOf(s) }

\* the callback runs with the pipeline and the descriptors bound, the work comes next, and then the end callback
Callbacks(n, r) ==
  LET ex == Sel({"exec"})
      ce == Sel({"cfgend"})
  IN Rule(r, /\ One(ex) /\ One(ce) /\ The(ex) < n /\ n < The(ce)
             /\ \A x \in Sel({"BindPipeline", "BindSets"}) : x < The(ex), << Who, ex, ce, n >>)

\* ---------------------------------------------------------------- compute
Compute ==
  LET ws == Sel(Work) IN
  Rule("C20.one-dispatch", One(ws) /\ ws = Sel(Dispatches), << Who, ws >>)
  \o (IF ~One(ws) THEN << >> ELSE
      LET n == The(ws)
          x == W[n]
          pipe == D(BoundPipe(n))
          g == [k \in 1..3 |-> IF P0.c.cb[k] THEN val[win.p].g[k] ELSE P0.c.gc[k]]
      IN Binding(n)
         \o Rule("C20.pipeline", pipe.k = "compute" /\ Stages(pipe.stages) = Stages(ProgOf(win.p, I0)), << Who, BoundPipe(n), ProgOf(win.p, I0) >>)
         \o Callbacks(n, "C20.callbacks")
         \o (IF P0.c.ind = << >>
             THEN Rule("C20.counts", x.c = "Dispatch" /\ x.a = g, << Who, x, g >>)
             ELSE Rule("C20.indirect", x.c = "DispatchIndirect" /\ x.a = << BAt(P0.c.ind[1], I0), P0.c.ind[3] >>, << Who, x, P0.c.ind >>)))

\* ---------------------------------------------------------------- render passes
Compatible(a, b) ==
  /\ a.k = "RenderPass" /\ b.k = "RenderPass" /\ Len(a.atts) = Len(b.atts)
  /\ \A i \in DOMAIN a.atts : a.atts[i].fmt = b.atts[i].fmt /\ a.atts[i].samples = b.atts[i].samples
  /\ [i \in DOMAIN a.cols |-> a.cols[i][1]] = [i \in DOMAIN b.cols |-> b.cols[i][1]]
  /\ [i \in DOMAIN a.ds |-> a.ds[i][1]] = [i \in DOMAIN b.ds |-> b.ds[i][1]]
RefOf(s, i) == { << s[j][1], s[j][2] >> : j \in { q \in DOMAIN s : s[q][1] = i - 1 } }

\* attachment i of the render pass stands for declared attachment a
Attachment(rp, clears, i, a) ==
  LET t == rp.atts[i]
      undef == t.init = "UNDEF"
      load == IF ~a.i \/ undef THEN 1 ELSE 0
      store == IF a.o THEN 0 ELSE 1
      main == a.use \in {"colour", "depth", "ds"}
      sten == a.use \in {"stencil", "ds"}
      d == << Who, i, a.use, a.i, a.o, t >>
  IN Rule("C11.format", t.fmt = VAt(a, I0)[3] /\ t.samples = decl.im[VAt(a, I0)[1]].samples, d)
     \o Rule("C11.load", main => t.load = load, d)
     \o Rule("C11.store", main => t.store = store, d)
     \o Rule("C11.stencil-load", IF sten THEN t.sload = load ELSE a.use = "depth" => t.sload \in {1, 2}, d)
     \o Rule("C11.stencil-store", IF sten THEN t.sstore = store ELSE a.use = "depth" => t.sstore = 1, d)
     \o Rule("C11.unused-aspect", a.use = "stencil" => (t.load \in {1, 2} /\ t.store = 1), d)
     \o Rule("C11.clear-value", ~a.i /\ a.o /\ a.val # << >> =>
              /\ Len(clears) >= i
              /\ CASE a.use = "colour" -> SubSeq(clears[i], 1, 4) = SubSeq(a.val, 1, 4)
                   [] a.use = "depth" -> clears[i][1] = a.val[1]
                   [] a.use = "stencil" -> clears[i][5] = a.val[5]
                   [] a.use = "ds" -> clears[i][1] = a.val[1] /\ clears[i][5] = a.val[5], << d, clears, a.val >>)
     \o Rule("C11.reference",
              LET refs == IF a.use = "colour" THEN rp.cols ELSE rp.ds
                  other == IF a.use = "colour" THEN rp.ds ELSE rp.cols
              IN RefOf(refs, i) = {<< i - 1, a.lay >>} /\ RefOf(other, i) = {}, << d, rp.cols, rp.ds, a.lay >>)

RenderPass(n) ==
  LET x == W[n]
      rp == D(x.rp)
      fb == D(x.fb)
      ts == Targets(P0)
      ok == rp.k = "RenderPass" /\ fb.k = "Framebuffer"
  IN Rule("C11.alive", ok, << Who, x.rp, x.fb >>)
     \o (IF ~ok THEN << >> ELSE
         LET views == [i \in DOMAIN fb.views |-> D(fb.views[i])]
             att(i) == { k \in DOMAIN ts : views[i] = [k |-> "ImageView", d |-> VAt(ts[k], I0)] }
             match == Len(views) = Len(ts) /\ (\A q \in DOMAIN views : One(att(q)))
                      /\ Cardinality(UNION { att(q) : q \in DOMAIN views }) = Len(ts)
             
             e == LevelExt(VAt(ts[1], I0)[1], VAt(ts[1], I0)[5][1])
         IN Rule("C11.framebuffer", fb.rp = x.rp \/ Compatible(D(fb.rp), rp), << Who, x.rp, fb.rp >>)
            \o Rule("C11.views", match /\ Len(rp.atts) = Len(ts), << Who, views, [k \in DOMAIN ts |-> VAt(ts[k], I0)] >>)
            \o Rule("C11.area", /\ x.area = << 0, 0, fb.w, fb.ht >> /\ fb.w = e[1] /\ fb.ht = e[2]
                                /\ fb.layers = VAt(ts[1], I0)[5][4], << Who, x.area, fb, e >>)
            \o (IF ~match \/ Len(rp.atts) # Len(ts) THEN << >> ELSE
                Rule("C11.colour-order", [j \in DOMAIN rp.cols |-> ts[The(att(rp.cols[j][1] + 1))]] = Colours(P0), << Who, rp.cols >>)
                \o Rule("C11.depth", Len(rp.ds) = Len(Depths(P0)), << Who, rp.ds >>)
                \o FlattenSeq([i \in DOMAIN views |-> Attachment(rp, x.clears, i, ts[The(att(i))])])))

InsidePass ==
  LET b == Sel({"BeginRenderPass"})
      e == Sel({"EndRenderPass"})
      inside == Sel(Work \cup {"BindPipeline", "BindSets", "BindVB", "BindIB", "exec"})
      out == Sel({"Barrier", "Blit", "CopyImage", "CopyB2I", "CopyI2B", "CopyBuffer", "Dispatch"})
  IN Rule("C21.one-render-pass", One(b) /\ One(e) /\ The(b) < The(e), << Who, b, e >>)
     \o (IF ~One(b) \/ ~One(e) THEN << >> ELSE
         Rule("C21.inside", /\ \A x \in inside : The(b) < x /\ x < The(e)
                            /\ \A x \in Sel({"cfgend"}) : x > The(e)
                            /\ \A x \in out : x < The(b) \/ x > The(e), << Who, inside, b, e >>)
         \o RenderPass(The(b)))

Render == InsidePass
          \o Rule("C21.contents", One(Sel({"exec"})) /\ \A b \in Sel({"BeginRenderPass"}) : W[b].contents = P0.c.contents, << Who >>)

\* ---------------------------------------------------------------- draws
Area == LET v == VAt(Targets(P0)[1], I0) IN LevelExt(v[1], v[5][1])
ViewSize == IF P0.c.size = << >> THEN << Area[1], Area[2] >> ELSE P0.c.size
Pipeline(n) ==
  LET pipe == D(BoundPipe(n))
      ok == pipe.k = "graphics"
      b == LastOf(Sel({"BeginRenderPass"}), n)
      cols == Colours(P0)
      vp == << P0.c.pos[1], P0.c.pos[2], ViewSize[1], ViewSize[2] >>
  IN Rule("C21.pipeline", ok /\ Stages(pipe.stages) = Stages(ProgOf(win.p, I0)), << Who, BoundPipe(n), ProgOf(win.p, I0), IF ok THEN pipe.stages ELSE << >> >>)
     \o (IF ~ok THEN << >> ELSE
         Rule("C21.compatible", b # 0 /\ pipe.subpass = 0 /\ Compatible(pipe.rpd, D(W[b].rp)), << Who, pipe.rp >>)
         \o Rule("C21.viewport", pipe.vps = << vp \o << 0, 1000 >> >> /\ pipe.scs = << vp >>, << Who, pipe.vps, pipe.scs, vp >>)
         \o Rule("C21.blend", Len(pipe.blends) = Len(cols)
                              /\ \A i \in DOMAIN pipe.blends : pipe.blends[i][1] = (IF cols[i].blend = 0 THEN 0 ELSE 1)
                                                               /\ (cols[i].blend # 0 => pipe.blends[i][2] = cols[i].blend), << Who, pipe.blends >>)
         \o Rule("C21.depth-state", pipe.dst = (IF P0.c.dst = << >> THEN << 0, 0, 0, 0 >> ELSE P0.c.dst), << Who, pipe.dst, P0.c.dst >>)
         \o (IF P0.kind = "mesh"
             THEN Rule("C21.states", /\ pipe.topo = 3 /\ pipe.cull = P0.c.cull
                                     /\ pipe.vbinds = P0.c.vbinds /\ pipe.vattrs = P0.c.vattrs, << Who, pipe, P0.c >>)
             ELSE Rule("C21.states", pipe.topo \in {3, 4} /\ pipe.cull = 0 /\ pipe.vbinds = QuadBinds
                                     /\ SetOf(pipe.vattrs) = QuadAttrs(IF P0.c.tex = << >> THEN 0 ELSE 1), << Who, pipe >>)))
Bit(b) == IF b THEN 1 ELSE 0
VBAt(n) == LET b == LastOf(Sel({"BindVB"}), n) IN IF b = 0 THEN << >> ELSE << W[b].first, W[b].bs, W[b].offs >>
IBAt(n) == LET b == LastOf(Sel({"BindIB"}), n) IN IF b = 0 THEN << >> ELSE W[b].a
Draw ==
  LET ws == Sel(Work) IN
  InsidePass
  \o Rule("C21.one-draw", One(ws) /\ ws = Sel(Draws), << Who, ws >>)
  \o (IF ~One(ws) THEN << >> ELSE
      LET n == The(ws)
          x == W[n]
          ind == P0.c.ind
          args == IF ind = << >> THEN << >> ELSE << BAt(ind[1], I0), ind[3], 1, ind[2] >>
          v == val[win.p]
      IN Binding(n) \o Pipeline(n) \o Callbacks(n, "C21.callbacks")
         \o (IF P0.kind = "quad"
             THEN LET vb == VBAt(n)
                      t == P0.c.tex
                  IN Rule("C21.triangle", /\ vb # << >> /\ vb[1] = 0 /\ Len(vb[2]) = 1 /\ vb[3] = << 0 >> /\ IsK(vb[2][1], "Buffer")
                                          /\ QuadData(D(vb[2][1]).data, Bit(t # << >>), IF t = << >> THEN 0 ELSE Bit(t[1]), IF t = << >> THEN 0 ELSE Bit(t[2])),
                           << Who, vb, t >>)
                     \o Rule("C21.quad-draw", IF ind = << >> THEN x.c = "Draw" /\ x.a = << 3, P0.c.inst, 0, 0 >>
                                              ELSE x.c = "DrawIndirect" /\ x.a = args, << Who, x, args >>)
             ELSE Rule("C21.mesh-buffers",
                       /\ VBAt(n) = (IF P0.c.vb = 0 THEN << >> ELSE << 0, << BAt(P0.c.vb, I0) >>, << 0 >> >>)
                       /\ IBAt(n) = (IF P0.c.ib = 0 THEN << >> ELSE << BAt(P0.c.ib, I0), 0, v.itype >>), << Who, VBAt(n), IBAt(n), P0.c, v >>)
                  \o Rule("C21.mesh-draw",
                       CASE ind # << >> /\ P0.c.ib # 0 -> x.c = "DrawIndexedIndirect" /\ x.a = args
                         [] ind # << >> /\ P0.c.ib = 0 -> x.c = "DrawIndirect" /\ x.a = args
                         [] ind = << >> /\ P0.c.ib # 0 -> x.c = "DrawIndexed" /\ x.a = << v.prim, 1, 0, 0, 0 >>
                         [] OTHER -> x.c = "Draw" /\ x.a = << v.verts, 1, 0, 0 >>, << Who, x, args, v >>)))

\* ---------------------------------------------------------------- mip levels
Ord(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Transfers == {"Blit", "CopyImage", "CopyB2I", "CopyI2B", "CopyBuffer"}
BoxOf(im, m) == << << 0, 0, 0 >>, LevelExt(im, m) >>
\* layout of a level at the end of the recording: the one of the last barrier on it
Covers(b, im, m, y) == b.img = im /\ b.r[1] <= m /\ (b.r[2] = -1 \/ m < b.r[1] + b.r[2]) /\ b.r[3] <= y /\ (b.r[4] = -1 \/ y < b.r[3] + b.r[4])
BarriersOn(im, m, y) == { n \in Sel({"Barrier"}) : \E j \in DOMAIN W[n].b : Covers(W[n].b[j], im, m, y) }
LayoutEnd(im, m, y, start) ==
                       LET S == BarriersOn(im, m, y)
                           n == Max(S)
                       IN IF S = {} THEN start ELSE LET b == W[n].b IN b[Max({ j \in DOMAIN b : Covers(b[j], im, m, y) })].new
MipView == VAt(P0.atts[1], I0)
MipLayers == LET r == MipView[5] IN r[3] .. (r[3] + r[4] - 1)
Mips ==
  LET v == MipView
      im == v[1]
      levels == decl.im[im].mips
      bl == Sel({"Blit"})
      of(y) == { n \in bl : Len(W[n].rs) = 1 /\ W[n].rs[1].d[3] = y }
      seq(y) == Ord(of(y))
  IN Rule("C22.only-blits", Sel(Transfers) = bl /\ \A n \in bl : W[n].s = im /\ W[n].d = im /\ W[n].sl = "SRC" /\ W[n].dl = "DST" /\ Len(W[n].rs) = 1
                            /\ W[n].rs[1].d[3] \in MipLayers /\ W[n].rs[1].d[4] = 1, << Who >>)
     \o FlattenSeq([k \in 1..Cardinality(MipLayers) |->
          LET y == Ord(MipLayers)[k]
              q == seq(y)
          IN Rule("C22.each-level", Len(q) = levels - 1 /\ \A j \in DOMAIN q : W[q[j]].rs[1].d[1] = j, << Who, y, [j \in DOMAIN q |-> W[q[j]].rs] >>)
             \o FlattenSeq([j \in DOMAIN q |->
                  LET x == W[q[j]].rs[1] IN
                  Rule("C22.from-previous", x.s = << x.d[1] - 1, 1, y, 1 >> /\ x.d[2] = 1 /\ x.sa = P0.c.asp /\ x.da = P0.c.asp, << Who, x >>)
                  \o Rule("C22.extents", x.so = BoxOf(im, x.d[1] - 1) /\ x.do = BoxOf(im, x.d[1]), << Who, x >>)])])
MipPend == [k \in { << MipView[1], m, y >> : m \in 0..(decl.im[MipView[1]].mips - 1), y \in MipLayers }
              |-> LayoutEnd(k[1], k[2], k[3], P0.atts[1].lay)]

\* ---------------------------------------------------------------- copies and blits
Sub(v) == << v[5][1], 1, v[5][3], v[5][4] >>
Plus(a, b) == << a[1] + b[1], a[2] + b[2], a[3] + b[3] >>
Pairs == [k \in 1..(Len(P0.atts) \div 2) |-> << P0.atts[2 * k - 1], P0.atts[2 * k] >>]
Copies ==
  LET c == P0.c
      ts == Ord(Sel(Transfers))
      n == IF P0.kind = "copy" THEN Len(Pairs) ELSE 1
      same(v, im, r, asp) == im = v[1] /\ r = Sub(v) /\ asp = v[4]
  IN Rule("C23.one-transfer", Len(ts) = n, << Who, Len(ts), n >>)
     \o (IF Len(ts) # n THEN << >> ELSE
         FlattenSeq([k \in 1..n |->
           LET x == W[ts[k]]
               one == Len(x.rs) = 1
               r == x.rs[1]
               s == Pairs[k][1]
               d == Pairs[k][2]
               img(a) == VAt(a, I0)
               buf(a) == BAt(a.buf[1], I0)
               dst == IF IsImg(d) THEN img(d) ELSE << >>
           IN CASE P0.kind = "copy" ->
                   Rule("C23.copy", /\ x.c = "CopyImage" /\ one /\ x.sl = "SRC" /\ x.dl = "DST"
                                    /\ same(img(s), x.s, r.s, r.sa) /\ same(img(d), x.d, r.d, r.da)
                                    /\ r.so = << 0, 0, 0 >> /\ r.do = << 0, 0, 0 >> /\ r.ext = c.ext, << Who, x, img(s), img(d) >>)
                   \o Rule("C23.final-layout", c.final = "UNDEF" \/
                             \A y \in dst[5][3]..(dst[5][3] + dst[5][4] - 1), m \in dst[5][1]..(dst[5][1] + dst[5][2] - 1) :
                                /\ LayoutEnd(dst[1], m, y, d.lay) = c.final
                                /\ \A b \in BarriersOn(dst[1], m, y) : b > ts[k], << Who, dst, c.final >>)
                [] P0.kind = "blit" ->
                   Rule("C23.blit", /\ x.c = "Blit" /\ one /\ x.sl = "SRC" /\ x.dl = "DST" /\ x.filter = c.filter
                                    /\ same(img(s), x.s, r.s, r.sa) /\ same(img(d), x.d, r.d, r.da)
                                    /\ r.so = << c.so, Plus(c.so, c.se) >> /\ r.do = << c.dof, Plus(c.dof, c.de) >>, << Who, x, img(s), img(d), c >>)
                [] P0.kind = "b2i" ->
                   Rule("C23.buffer-to-image", /\ x.c = "CopyB2I" /\ one /\ x.dl = "DST" /\ x.s = buf(s)
                                    /\ same(img(d), x.d, r.i, r.ia)
                                    /\ r.bo = << s.buf[2], 0, 0 >> /\ r.io = c.io /\ r.ie = c.ie, << Who, x, s.buf >>)
                [] P0.kind = "i2b" ->
                   Rule("C23.image-to-buffer", /\ x.c = "CopyI2B" /\ one /\ x.sl = "SRC" /\ x.d = buf(d)
                                    /\ same(img(s), x.s, r.i, r.ia)
                                    /\ r.bo = << d.buf[2], 0, 0 >> /\ r.io = c.io /\ r.ie = c.ie, << Who, x, d.buf >>)
                [] P0.kind = "bcopy" ->
                   Rule("C23.buffer-copy", /\ x.c = "CopyBuffer" /\ one /\ x.s = buf(s) /\ x.d = buf(d)
                                    /\ r = << s.buf[2] + c.off, d.buf[2] + c.off, c.sz >>, << Who, x, s.buf, d.buf, c >>)]))

\* ---------------------------------------------------------------- recording of a pass
\* the levels generated before are as the next pass that uses any of them asks for
\* (a pass is a user of the views of all its variants, since which one runs may change), and
\* one layout is chosen for them all when it asks for several
TouchesK(k, v) == v[1] = k[1] /\ k[2] \in v[5][1]..(v[5][1] + v[5][2] - 1) /\ k[3] \in v[5][3]..(v[5][3] + v[5][4] - 1)
Touched(P) == { k \in DOMAIN pend : \E n \in DOMAIN P.atts : LET a == P.atts[n] IN IsImg(a) /\ a.lay # "" /\ \E j \in DOMAIN a.vs : TouchesK(k, a.vs[j]) }
Asked(P, im) == { P.atts[n].lay : n \in { n \in DOMAIN P.atts : LET a == P.atts[n] IN IsImg(a) /\ a.lay # "" /\ \E k \in DOMAIN pend : k[1] = im /\ \E j \in DOMAIN a.vs : TouchesK(k, a.vs[j]) } }
Begin == /\ Is("begin")
         /\ LET P == decl.pass[Ev.p]
                t == SetToSeq(Touched(P))
            IN /\ Report(FlattenSeq([j \in DOMAIN t |->
                           LET k == t[j] IN Rule("C22.next-layout", pend[k] \in Asked(P, k[1]), << Ev.p, k, pend[k], Asked(P, k[1]) >>)]))
               \* levels of the image this pass leaves alone are for a later user to ask for
               /\ pend' = Drop(pend, { k \in DOMAIN pend : \E j \in DOMAIN t : t[j][1] = k[1] })
         /\ win' = [p |-> Ev.p, i |-> Ev.i, cmds |-> << >>]
         /\ UNCHANGED << sc, decl, objs, prog, val, desc >>
Cmd == /\ Is("cmd") /\ NoReport
       /\ win' = IF win.p = 0 THEN win ELSE [win EXCEPT !.cmds = Append(@, Ev)]
       /\ UNCHANGED << sc, decl, objs, prog, val, desc, pend >>
End == /\ Is("end")
       /\ Report(CASE P0.kind = "compute" -> Compute
                   [] P0.kind = "render" -> Render
                   [] P0.kind \in {"quad", "mesh"} -> Draw
                   [] P0.kind = "mips" -> Mips
                   [] P0.kind \in {"copy", "blit", "b2i", "i2b", "bcopy"} -> Copies
                   [] OTHER -> << >>)
       /\ pend' = IF P0.kind = "mips" THEN MipPend @@ pend ELSE pend
       /\ win' = NoWin
       /\ UNCHANGED << sc, decl, objs, prog, val, desc >>
\* what a frame leaves is the business of the next one
RunEnd == /\ Is("runEnd") /\ NoReport /\ pend' = EmptyFn
          /\ UNCHANGED << sc, decl, objs, win, prog, val, desc >>
\* a declared output of the graph is its next user when no pass is
Step == Scenario \/ Obj \/ Del \/ Buffer \/ Data \/ SetVal \/ Reset \/ Alloc \/ Update \/ Begin \/ Cmd \/ End \/ RunEnd
Next == \/ Step /\ l' = l + 1
        \/ Finish /\ UNCHANGED << sc, viol, pvars >>
Spec == Init /\ [][Next]_<< l, sc, viol, pvars >>
=============================================================================
