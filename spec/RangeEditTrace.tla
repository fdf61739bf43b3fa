-------------------------- MODULE RangeEditTrace --------------------------
(* Judges recorded histories of edits through a range during iteration.      *)
EXTENDS RangeEdit, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st        \* st: [kids, top, inn, bs, be, lv (stack of <<L, pos>>)]
vars == <<l, st>>
TraceInit == l = 1 /\ st = <<>>
Top == st.lv[Len(st.lv)]
SetTop(x) == [st.lv EXCEPT ![Len(st.lv)] = x]

Yield == LET r == Rest(st.kids, st.inn, Top[1], Top[2]) IN IF r = <<>> THEN 0 ELSE r[1]
AfterYield == IF Yield = 0 THEN st
              ELSE [st EXCEPT !.lv = SetTop(<<Top[1], FirstPos(st.kids[Top[1]], Yield) + 1>>)]
Cur == IF Top[2] = 0 THEN IF Len(st.lv) = 1 THEN 0 ELSE Top[1] ELSE st.kids[Top[1]][Top[2]]

\* replacing the current node is an item assignment in its parent's level
SetNode(e) == LET lv == IF Top[2] = 0 /\ Len(st.lv) > 1 THEN SubSeq(st.lv, 1, Len(st.lv) - 1) ELSE st.lv
              IN [lv |-> lv, op |-> [o |-> "set", i |-> lv[Len(lv)][2] - 1, j |-> 0, x |-> e.op.x]]

JudgeEdit(e, lv, op) ==
    LET L == lv[Len(lv)][1]
        n == Len(st.kids[L])
        fail == Fails(op, n)
        r == Edit(st.kids, st.top, st.inn, st.bs, st.be, L, lv[Len(lv)][2], op, e.nk)
        want == IF fail THEN st.kids \o SubSeq(e.nk, Len(st.kids) + 1, Len(e.nk)) ELSE [e.nk EXCEPT ![L] = r.list]
        alive == SeqRange(Pre(want, st.top))
        win == IF fail THEN st.inn ELSE (st.inn \cap alive) \cup r.nin
        free == IF fail THEN {} ELSE r.free
        real == SeqRange(e.inn)
        bad == (IF fail # (e.err # "") THEN {IF fail THEN "missing-failure" ELSE "failure:" \o e.op.o} ELSE {})
               \cup (IF e.kids # want THEN {"children-list"} ELSE {})
               \cup (IF e.kids = want /\ (real \ free) # (win \ free) THEN {"membership"} ELSE {})
               \cup (IF e.kids = want /\ ~IsInterval(want, st.top, real) THEN {"membership-gap"} ELSE {})
               \cup (IF e.kids = want /\ SeqRange(e.fresh) # real THEN {"boundary-trails"} ELSE {})
               \cup (IF e.bool # IF real = {} THEN 0 ELSE 1 THEN {"emptiness"} ELSE {})
    IN [bad |-> bad, st |-> [st EXCEPT !.kids = e.kids, !.inn = real,
                                 !.lv = IF fail THEN lv ELSE [lv EXCEPT ![Len(lv)] = <<L, r.pos>>]], want |-> win]

TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.ev = "range" ->
              LET c == [kids |-> e.kids, par |-> ParentMap(e.kids), top |-> e.top, s |-> e.s, e |-> e.e] IN
              st' = [kids |-> e.kids, top |-> e.top, inn |-> {m \in DOMAIN e.kids \ {e.top} : Contained(c, m)},
                     bs |-> e.s # 0, be |-> e.e # 0, lv |-> <<<<e.top, 0>>>>]
         [] e.ev = "next" ->
              /\ IF e.err = "" /\ e.ret = Yield THEN TRUE ELSE PrintT(ToJson([line |-> l, bad |-> {"iteration"}, info |-> [st |-> st, want |-> Yield]]))
              /\ st' = AfterYield
         [] e.ev = "enter" -> st' = IF Top[2] = 0 THEN st ELSE [st EXCEPT !.lv = Append(@, <<Cur, 0>>)]
         [] e.ev = "leave" -> st' = IF Len(st.lv) = 1 THEN [st EXCEPT !.lv = <<<<st.top, 0>>>>]
                                    ELSE [st EXCEPT !.lv = SubSeq(@, 1, Len(@) - 1)]
         [] e.ev = "edit" ->
              LET j == IF e.op.o = "node" THEN JudgeEdit(e, SetNode(e).lv, SetNode(e).op) ELSE JudgeEdit(e, st.lv, e.op) IN
              /\ IF j.bad = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, bad |-> j.bad, info |-> [st |-> st, want |-> j.want]]))
              /\ st' = j.st
TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
