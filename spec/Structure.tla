----------------------------- MODULE Structure -------------------------------
(* Conformance of what a graph says of itself: transitions between passes, the  *)
(* textual export, merged views, and what each attachment reports of its use.   *)
EXTENDS Mon, StructCore
VARIABLES prog,   \* graph -> [dep, outs, ins, gname]
          hand    \* graph -> hand-overs exposed: << producer, consumer, label >>

vars == << prog, hand >>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Ev.e = e
Rule(n, ok, d) == << << n, ok, d >> >>
Init == l = 1 /\ sc = 0 /\ viol = << >> /\ prog = EmptyFn /\ hand = EmptyFn /\ CovInit
Scenario == Is("scen") /\ sc' = Ev.s /\ prog' = EmptyFn /\ hand' = EmptyFn /\ NoReport
Same == UNCHANGED << sc, prog, hand >>

\* ---- C24 -------------------------------------------------------------------
UseOf(x) == IF x.res = "v" THEN [x EXCEPT !.asp = SetOf(x.asp)] ELSE x
Uses(ps, k) == [p \in { ps[n].p : n \in DOMAIN ps } |-> LET q == CHOOSE q \in SetOf(ps) : q.p = p
                                                        IN { UseOf(x) : x \in SetOf(IF k = "o" THEN q.outs ELSE q.ins) }]
Program == /\ Is("prog") /\ UNCHANGED << sc, hand >> /\ NoReport
           /\ prog' = Put(prog, Ev.g, [dep |-> [p \in { Ev.passes[n].p : n \in DOMAIN Ev.passes } |->
                                                   LET q == CHOOSE q \in SetOf(Ev.passes) : q.p = p IN SetOf(q.deps)],
                                       outs |-> Uses(Ev.passes, "o"), ins |-> Uses(Ev.passes, "i"),
                                       group |-> [p \in { Ev.passes[n].p : n \in DOMAIN Ev.passes } |->
                                                   LET q == CHOOSE q \in SetOf(Ev.passes) : q.p = p IN q.groups]])
\* t: [a, c, res, o, i, data, label] with o, i, data: ids of the writing, reading views and of the view handed over, or the buffer
Writes(P, t) == { w \in P.outs[t.a] : w.res = t.res /\ (IF t.res = "v" THEN w.lid = t.o ELSE w.buf = t.o) }
Reads(P, t) == { r \in P.ins[t.c] : r.res = t.res /\ (IF t.res = "v" THEN r.lid = t.i ELSE r.buf = t.i) }
GoodHand(P, t) == \E w \in Writes(P, t), r \in Reads(P, t) :
                     /\ Sound(P.dep, P.outs, P.ins, t.a, t.c, w, r)
                     /\ t.res = "v" => \E d \in UNION { P.outs[x] \cup P.ins[x] : x \in {t.a, t.c} } :
                                          d.res = "v" /\ d.lid = t.data /\ Touching(d, w) /\ Touching(d, r)
                     /\ t.res = "b" => t.data = w.buf
Inner(ts) == { t \in ts : t.a # 0 /\ t.c # 0 }
Shown(ts, due) == \E t \in ts : /\ t.a = due[1] /\ t.c = due[2] /\ t.res = due[3].res
                               /\ IF t.res = "v" THEN t.o = due[3].lid /\ t.i = due[4].lid ELSE t.data = due[3].buf
\* what comes from, or goes, out of the graph
All(f) == UNION { f[p] : p \in DOMAIN f }
FromOutside(P, r) == ~ \E w \in All(P.outs) : Touching(w, r)
ToOutside(P, w) == w \notin All(P.ins) /\ ~ \E r \in All(P.ins) : Touching(w, r)
IsUse(u, res, id) == u.res = res /\ (IF res = "v" THEN u.lid = id ELSE u.buf = id)
\* (an image use that no pass hands over may be listed with its pass on either side: the graph knows only that it ends there)
Outer(ts, p, u, in) == \E t \in ts : \/ t.a = 0 /\ t.c = p /\ IsUse(u, t.res, t.data) /\ (t.res = "b" => in)
                                     \/ t.c = 0 /\ t.a = p /\ IsUse(u, t.res, t.data) /\ (t.res = "b" => ~in)
Entering(P, ts) == { << c, r >> \in UNION { { << c, r >> : r \in P.ins[c] } : c \in DOMAIN P.ins } : FromOutside(P, r) /\ ~Outer(ts, c, r, TRUE) }
Leaving(P, ts) == { << a, w >> \in UNION { { << a, w >> : w \in P.outs[a] } : a \in DOMAIN P.outs } : ToOutside(P, w) /\ ~Outer(ts, a, w, FALSE) }
GoodOuter(P, t) == LET p == IF t.a = 0 THEN t.c ELSE t.a
                   IN \E u \in P.ins[p] \cup P.outs[p] : IsUse(u, t.res, t.data)
Transitions ==
  /\ Is("trans") /\ UNCHANGED << sc, prog >>
  /\ LET P == prog[Ev.g]
         ts == SetOf(Ev.ts)
         in == Inner(ts)
         es == { t \in SetOf(Ev.es) : t.a # 0 }
         on == { t \in SetOf(Ev.et) : t.a # 0 }
         due == Due(P.dep, P.outs, P.ins)
     IN /\ hand' = Put(hand, Ev.g, [in |-> { << t.a, t.c, t.label >> : t \in in }, on |-> { << t.a, t.c, t.label >> : t \in on },
                                    inner |-> { t.a : t \in in } \cup { t.c : t \in in },
                                    who |-> ({ t.a : t \in ts } \cup { t.c : t \in ts }) \ {0}])
        /\ Report(Rule("C24.complete", \A d \in due : Shown(in, d), << { << d[1], d[2], d[3], d[4] >> : d \in { d \in due : ~Shown(in, d) } } >>)
                  \o Rule("C24.sound", \A t \in in : GoodHand(P, t), << { t \in in : ~GoodHand(P, t) } >>)
                  \o Rule("C24.from-outside", Entering(P, ts) = {}, << Entering(P, ts) >>)
                  \o Rule("C24.to-outside", Leaving(P, ts) = {}, << Leaving(P, ts) >>)
                  \o Rule("C24.outer-sound", \A t \in ts \ in : GoodOuter(P, t), << { t \in ts \ in : ~GoodOuter(P, t) } >>)
                  \o Rule("C24.linked", \A d \in due : Shown(on, d) /\ \E e \in es : e.a = d[1] /\ e.c = d[2], << { << d[1], d[2] >> : d \in { d \in due : ~Shown(on, d) } } >>)
                  \o Rule("C24.link-sound", \A t \in on : GoodHand(P, t) /\ \E e \in es : e.a = t.a /\ e.c = t.c, << { t \in on : ~GoodHand(P, t) } >>)
                  \o Rule("C24.every-pass-reached", SetOf(Ev.nodes) = DOMAIN P.dep, << Ev.nodes >>))

\* ---- C30 -------------------------------------------------------------------
\* nodes: [k: "P"/"T"/"X", id, groups: clusters around it]; edges: [f, t: node keys << k, id >>, lab]
Dot ==
  /\ Is("dot") /\ Same
  /\ LET H == hand[Ev.g]
         P == prog[Ev.g]
         ns == Ev.nodes
         pn == SelectSeq(ns, LAMBDA n : n.k = "P")
         es == SetOf(Ev.edges)
         paths == { << x[1].f[2], x[2].t[2], x[1].lab >> :
                      x \in { x \in es \X es : x[1].t = x[2].f /\ x[1].t[1] = "T" /\ x[1].f[1] = "P" /\ x[2].t[1] = "P" /\ x[1].lab = x[2].lab } }
         direct == { e \in es : e.f[1] = "P" /\ e.t[1] = "P" }
     IN Report(Rule("C30.each-pass-once", Len(pn) = Cardinality({ pn[n].id : n \in DOMAIN pn }) /\ { pn[n].id : n \in DOMAIN pn } = (IF Ev.what = "passes" THEN H.inner ELSE H.who),
                    << Ev.what, Ev.groups, Ev.split, [n \in DOMAIN pn |-> pn[n].id], H.who >>)
               \o Rule("C30.every-transition", (IF Ev.what = "passes" THEN H.on ELSE H.in) \subseteq paths, << Ev.what, (IF Ev.what = "passes" THEN H.on ELSE H.in) \ paths >>)
               \o Rule("C30.no-other", paths \subseteq H.in /\ direct = {}, << paths \ H.in, direct >>)
               \o Rule("C30.declared", Ev.split \/ \A e \in es : \A x \in {e.f, e.t} : x[1] = "X" \/ \E n \in DOMAIN ns : << ns[n].k, ns[n].id >> = x, << >>)
               \o Rule("C30.well-formed", Ev.ok, << Ev.what, Ev.groups, Ev.split >>)
               \o (IF Ev.groups \/ Ev.split
                   THEN Rule("C30.in-group", \A n \in DOMAIN pn : LET want == P.group[pn[n].id]
                                                                 IN IF Ev.split THEN pn[n].groups = << want[Len(want)] >> ELSE pn[n].groups = want,
                             << pn, P.group >>)
                   ELSE << >>))

\* ---- C26 -------------------------------------------------------------------
Low(s, k) == Min({ s[n].r[k] : n \in DOMAIN s })
High(s, k) == Max({ s[n].r[k] + s[n].r[k + 1] : n \in DOMAIN s })
\* asked not to merge the levels, or the layers: decided where all sources are of a same single one
One(s, k) == High(s, k) - Low(s, k) = 1
Arrayed == { 3, 4, 5, 6 }
Merge == /\ Is("merge") /\ Same
         /\ LET s == Ev.srcs
                g == Ev.got
            IN Report(Rule("C26.range", /\ (Ev.mm \/ One(s, 1)) => g.r[1] = Low(s, 1) /\ g.r[2] = High(s, 1) - Low(s, 1)
                                        /\ (Ev.ml \/ One(s, 3)) => g.r[3] = Low(s, 3) /\ g.r[4] = High(s, 3) - Low(s, 3), << g, s >>)
                      \o Rule("C26.aspects", SetOf(g.asp) = UNION { SetOf(s[n].asp) : n \in DOMAIN s }, << g, s >>)
                      \o Rule("C26.image", g.img = s[1].img /\ g.fmt = s[1].fmt, << g, s >>)
                      \o Rule("C26.sources", g.src = [n \in DOMAIN s |-> s[n].lid], << g, s >>)
                      \o Rule("C26.cube", /\ g.vt = 3 => s[1].cube /\ g.r[4] = 6
                                          /\ g.vt = 6 => s[1].cube /\ g.r[4] % 6 = 0, << g, s >>)
                      \o Rule("C26.type", g.r[4] > 1 => g.vt \in Arrayed \cup (IF s[1].vt = 2 THEN {2} ELSE {}), << g, s >>))
MergedAtt == Is("mergedAtt") /\ Same /\ Report(Rule("C26.attachment", Ev.got = Ev.want, << Ev.got, Ev.want >>))
Resolved == Is("resolved") /\ Same
            /\ Report(Rule("C26.resolve", Ev.got = (IF Ev.srcs = << >> THEN Ev.view ELSE Ev.srcs[Ev.index + 1]), << Ev >>))

\* ---- C27 -------------------------------------------------------------------
\* d: [use, in, out, clear, nt, wanted, acc, st, bind, view]; use: sampled storage transfer impl colour depth stencil ds uniform
RW(d, r, w) == (IF d.in THEN {r} ELSE {}) \cup (IF d.out THEN {w} ELSE {})
AttLayout(d, sep) ==
  CASE d.use = "sampled" -> "SHADER_RO"
    [] d.use = "storage" -> "GENERAL"
    [] d.use = "transfer" -> IF d.out THEN "DST" ELSE "SRC"
    [] d.use = "impl" -> d.wanted
    [] d.use = "colour" -> "COLOR"
    [] OTHER -> (IF ~sep \/ d.use = "ds" THEN "DS" ELSE IF d.use = "depth" THEN "D" ELSE "S") \o (IF d.out THEN "_ATT" ELSE "_RO")
\* accesses and stage of an explicit transition to a layout
LayAccess(y) == CASE y \in {"COLOR"} -> {"CO_W"}
                  [] y \in {"DS_ATT", "D_ATT", "S_ATT"} -> {"DS_W"}
                  [] y \in {"DS_RO", "D_RO", "S_RO"} -> {"DS_R"}
                  [] y = "SHADER_RO" -> {"SH_R"}
                  [] y = "SRC" -> {"TR_R"}
                  [] y = "DST" -> {"TR_W"}
                  [] y = "PRESENT" -> {"ME_R"}
                  [] OTHER -> {}
LayStage(y) == CASE y = "COLOR" -> { "CO" }
                 [] y \in {"DS_ATT", "D_ATT", "S_ATT", "DS_RO", "D_RO", "S_RO"} -> { "LF" }
                 [] y = "SHADER_RO" -> { "FS", "CS" }
                 [] y \in {"SRC", "DST"} -> { "TR" }
                 [] OTHER -> { "BOT" }
AttAccess(d) ==
  CASE d.use \in {"sampled", "storage"} -> RW(d, "SH_R", "SH_W")
    [] d.use = "transfer" -> RW(d, "TR_R", "TR_W")
    [] d.use = "colour" -> RW(d, "CO_R", "CO_W")
    [] d.use \in {"depth", "stencil", "ds"} -> RW(d, "DS_R", "DS_W")
    [] d.use = "uniform" -> IF d.view THEN {"SH_R"} ELSE {"UNIFORM"}
    [] OTHER -> IF d.image THEN LayAccess(d.wanted) ELSE SetOf(d.acc)
StageOk(d, st, compute) ==
  CASE d.use \in {"sampled", "storage", "uniform"} -> st = {IF compute THEN "CS" ELSE "FS"}
    [] d.use = "transfer" -> st = {"TR"}
    [] d.use = "colour" -> st = {"CO"}
    [] d.use \in {"depth", "stencil", "ds"} -> {"LF"} \subseteq st /\ st \subseteq {"EF", "LF"}
    [] OTHER -> IF d.image THEN st # {} /\ st \subseteq LayStage(d.wanted) ELSE st = SetOf(d.st)
DescType(d) ==
  CASE d.image /\ d.use = "sampled" -> 1
    [] d.image /\ d.use = "storage" -> 3
    [] d.use = "uniform" -> IF d.view THEN 4 ELSE 6
    [] ~d.image /\ d.use = "storage" -> IF d.view THEN 5 ELSE 7
    [] OTHER -> -1
\* load (0), clear (1), don't care (2); store (0), don't care (1)
Ld(d) == IF d.in THEN 0 ELSE 1
Stq(d) == IF d.out THEN 0 ELSE 1
AttOps(d) ==
  CASE d.use \in {"colour", "depth"} -> << Ld(d), Stq(d), 2, 1 >>
    [] d.use = "stencil" -> << 2, 1, Ld(d), Stq(d) >>
    [] d.use = "ds" -> << Ld(d), Stq(d), Ld(d), Stq(d) >>
    [] OTHER -> << 2, 1, 2, 1 >>
\* the facts an attachment states about its kind
Facts(d) ==
  { x \in { IF d.image THEN "image" ELSE "buffer",
            IF d.in THEN "in" ELSE "", IF d.out THEN "out" ELSE "",
            IF d.nt THEN "nt" ELSE "",
            IF d.clear THEN "clr" ELSE "", IF d.clear THEN (IF d.image THEN "clrImg" ELSE "clrBuf") ELSE "",
            IF ~d.image /\ d.view THEN "bview" ELSE "",
            CASE d.image /\ d.use = "sampled" -> "sampled" [] d.image /\ d.use = "storage" -> "storage"
              [] d.image /\ d.use = "transfer" -> "transfer" [] d.image /\ d.use = "impl" -> "transition"
              [] d.use = "colour" -> "colour" [] d.use \in {"depth", "ds"} -> "depth" [] d.use = "stencil" -> "stencil"
              [] d.use = "uniform" -> "ubuf" [] d.use = "storage" -> "sbuf" [] d.use = "transfer" -> "tbuf" [] OTHER -> "trbuf",
            IF d.use = "ds" THEN "stencil" ELSE "",
            IF d.use \in {"stencil", "ds"} /\ d.in THEN "sin" ELSE "",
            IF d.use \in {"stencil", "ds"} /\ d.out THEN "sout" ELSE "" } : x # "" }
\* the facts which combine a kind and a direction
Both(d, k, i, o, io) == { x \in { IF k /\ d.in THEN i ELSE "", IF k /\ d.out THEN o ELSE "", IF k /\ d.in /\ d.out THEN io ELSE "" } : x # "" }
Combined(d) ==
  Both(d, TRUE, "", "", "inOut")
  \cup Both(d, d.image /\ d.use = "colour", "colIn", "colOut", "colInOut")
  \cup Both(d, d.image /\ d.use \in {"depth", "ds"}, "depIn", "depOut", "depInOut")
  \cup Both(d, d.image /\ d.use \in {"stencil", "ds"}, "", "", "stInOut")
  \cup Both(d, d.image /\ d.use = "ds", "dsIn", "dsOut", "dsInOut")
  \cup Both(d, d.image /\ d.use = "transfer", "trIn", "trOut", "")
  \cup Both(d, d.image /\ d.use = "storage", "sgIn", "sgOut", "")
  \cup Both(d, ~d.image /\ d.use = "transfer", "tbufIn", "tbufOut", "")
  \cup (IF d.image /\ d.use = "ds" THEN {"ds"} ELSE {})
  \cup (IF ~d.image /\ d.view THEN CASE d.use = "uniform" -> {"uview"} [] d.use = "storage" -> {"sview"} [] d.use = "impl" -> {"trview"} [] OTHER -> {} ELSE {})
Att == /\ Is("attach") /\ Same
       /\ LET d == Ev.decl
              g == Ev.got
          IN Report(Rule("C27.direction", (d.in <=> "in" \in SetOf(g.facts)) /\ (d.out <=> "out" \in SetOf(g.facts)), << d, g >>)
                    \o Rule("C27.kind", SetOf(g.facts) = Facts(d), << d, g, Facts(d) >>)
                    \o Rule("C27.combined-kind", SetOf(g.more) = Combined(d), << d, g.more, Combined(d) >>)
                    \o Rule("C27.access", SetOf(g.acc) = AttAccess(d), << d, g >>)
                    \o Rule("C27.stage", StageOk(d, SetOf(g.stG), FALSE) /\ StageOk(d, SetOf(g.stC), TRUE), << d, g >>)
                    \o Rule("C27.descriptor", g.dt = DescType(d) /\ g.bind = (IF d.use \in {"transfer", "impl"} THEN -1 ELSE IF d.use \in {"colour", "depth", "stencil", "ds"} THEN g.bind ELSE d.bind), << d, g >>)
                    \o Rule("C27.resource", g.res = d.res /\ g.owner = d.owner, << d, g >>)
                    \o (IF d.image THEN Rule("C27.layout", g.lay0 = AttLayout(d, FALSE) /\ g.lay1 = AttLayout(d, TRUE), << d, g >>)
                                        \o Rule("C27.load-store", g.ops = AttOps(d), << d, g >>)
                        ELSE << >>))
Count == Is("attCount") /\ Same /\ Report(Rule("C27.each-once", Ev.want = Ev.got, << Ev >>))

Step == Scenario \/ Program \/ Transitions \/ Dot \/ Merge \/ MergedAtt \/ Resolved \/ Att \/ Count
Next == \/ Step /\ l' = l + 1
        \/ Finish /\ UNCHANGED << sc, viol, prog, hand >>
Spec == Init /\ [][Next]_<< l, sc, viol, prog, hand >>
=============================================================================
