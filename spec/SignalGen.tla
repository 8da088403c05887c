------------------------------ MODULE SignalGen ------------------------------
(* All histories of bounded length over a few connections of a few signals,     *)
(* with slots that act while being called; each complete history is printed so  *)
(* that it can be replayed on the real signals.  Along the way the design the   *)
(* library relies on (slots filed under ever growing indices, emissions over     *)
(* the indices known at their start) is checked against what is owed (SignalCore).*)
EXTENDS SignalCore, Json, SequencesExt

CONSTANTS Conns,   \* connection objects
          Sigs,    \* signals
          K,       \* length of the histories
          Acts     \* what a slot may do when first called: subset of {"none", "self", "other", "connect", "emit"}

VARIABLES w, objs, hist,
          map,     \* signal -> index -> slot
          last,    \* signal -> last index given
          at       \* connection -> << signal, index >> or << >>
vars == << w, objs, hist, map, last, at >>

Init == /\ w = World0 /\ objs = {} /\ hist = << >>
        /\ map = [s \in Sigs |-> [x \in {} |-> 0]] /\ last = [s \in Sigs |-> 0] /\ at = [c \in Conns |-> << >>]

Fresh == IF Conns \ objs = {} THEN {} ELSE { Min(Conns \ objs) }
Unfile(m, a) == IF a = << >> THEN m ELSE [m EXCEPT ![a[1]] = SDrop(@, { a[2] })]
More == Len(hist) < K
Say(op) == hist' = Append(hist, op)
NewSlot == Len(hist) + 1
ActOf(c, a) == CASE a[1] = "none" -> << >>
                 [] a[1] = "self" -> << [op |-> "disconnect", id |-> c] >>
                 [] a[1] = "connect" -> << [op |-> "connect", id |-> 90 + NewSlot, slot |-> 90 + NewSlot] >>
                 [] a[1] = "emit" -> << [op |-> "emit"] >>
                 [] OTHER -> << [op |-> "disconnect", id |-> a[2]] >>
ActsFor(c) == { << a, 0 >> : a \in Acts \ {"other"} } \cup (IF "other" \in Acts THEN { << "other", d >> : d \in objs \ { c } } ELSE {})

DoConnect(c, s, a, assign) ==
  /\ w' = Connect(w, c, s, NewSlot)
  /\ last' = [last EXCEPT ![s] = @ + 1]
  /\ map' = [Unfile(map, at[c]) EXCEPT ![s] = SPut(@, last'[s], NewSlot)]
  /\ at' = [at EXCEPT ![c] = << s, last'[s] >>]
  /\ objs' = objs \cup { c }
  /\ Say([op |-> "connect", id |-> c, sig |-> s, slot |-> NewSlot, assign |-> assign, acts |-> ActOf(c, a)])
DoDisconnect(c, op) ==
  /\ w' = Release(w, c)
  /\ map' = Unfile(map, at[c]) /\ at' = [at EXCEPT ![c] = << >>]
  /\ objs' = IF op = "condel" THEN objs \ { c } ELSE objs
  /\ UNCHANGED last
  /\ Say([op |-> op, id |-> c])
DoMove(c, d) ==
  /\ w' = Move(w, c, d)
  /\ IF c = d THEN UNCHANGED << map, at >>
     ELSE /\ map' = Unfile(map, at[c])
          /\ at' = [at EXCEPT ![c] = at[d], ![d] = << >>]
  /\ objs' = objs \cup { c } /\ UNCHANGED last
  /\ Say([op |-> "conmove", id |-> c, from |-> d, assign |-> c \in objs])
DoEmit(s) == /\ hist # << >> /\ hist[Len(hist)].op # "emit"
             /\ UNCHANGED << w, objs, map, last, at >>
             /\ Say([op |-> "emit", id |-> s])

Next == /\ More
        /\ \/ \E c \in objs \cup Fresh : \E s \in Sigs, a \in ActsFor(c), as \in (IF c \in objs THEN BOOLEAN ELSE { FALSE }) : DoConnect(c, s, a, as)
           \/ \E c \in objs, op \in {"disconnect", "condel"} : DoDisconnect(c, op)
           \/ \E d \in objs, c \in objs \cup Fresh : DoMove(c, d)
           \/ \E s \in Sigs : DoEmit(s)

Done == More \/ PrintT(ToJson(hist))
\* the filed slots are exactly the live ones, each under the index its connection knows
Design == /\ \A s \in Sigs : { map[s][i] : i \in DOMAIN map[s] } = SlotsOf(w, s)
          /\ \A c \in Conns : IF at[c] = << >> THEN ~Valid(w, c)
                              ELSE at[c][2] \in DOMAIN map[at[c][1]] /\ map[at[c][1]][at[c][2]] = Held(w, c)
Spec == Init /\ [][Next]_vars
=============================================================================
