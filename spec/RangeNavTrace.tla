--------------------------- MODULE RangeNavTrace ---------------------------
(* Judges recorded cursor histories over ranges of real trees.               *)
EXTENDS RangeNav, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, c, p, typ, val
vars == <<l, c, p, typ, val>>
TraceInit == l = 1 /\ c = <<>> /\ p = <<>> /\ typ = <<>> /\ val = <<>>

BadMove(e) == LET r == Move(c, p, e.a) IN
    (IF r.err # (e.err # "") THEN {IF r.err THEN "missing-failure:" \o e.a.o ELSE "failure:" \o e.a.o} ELSE {})
    \cup (IF e.err = "" /\ ~r.err /\ e.a.o # "index" /\ r.ret # e.ret THEN {"move:" \o e.a.o} ELSE {})
    \cup {"cursor:" \o f : f \in {g \in DOMAIN e.obs : e.obs[g] # Obs(c, r.p)[g]}}
BadQuery(e) == IF e.err # "" THEN {"failure:" \o e.q.o}
               ELSE IF e.ret # RAnswer(c, typ, val, p.cur, e.q) THEN {"range:" \o e.q.o} ELSE {}

TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.ev = "range" ->
              LET c2 == [kids |-> e.kids, par |-> ParentMap(e.kids), top |-> e.top, s |-> e.s, e |-> e.e] IN
              /\ c' = c2 /\ p' = Fresh(c2) /\ typ' = e.typ /\ val' = e.val
         [] e.ev = "move" ->
              LET bad == BadMove(e) IN
              /\ IF bad = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, bad |-> bad, info |-> [c |-> c, p |-> p, want |-> Move(c, p, e.a), obs |-> Obs(c, Move(c, p, e.a).p)]]))
              /\ p' = Move(c, p, e.a).p /\ UNCHANGED <<c, typ, val>>
         [] e.ev = "ask" ->
              LET bad == BadQuery(e) IN
              /\ IF bad = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, bad |-> bad, info |-> [c |-> c, p |-> p, want |-> RAnswer(c, typ, val, p.cur, e.q)]]))
              /\ UNCHANGED <<c, p, typ, val>>
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
