--------------------------- MODULE NodeTreeTrace ---------------------------
(* Judges recorded histories of operations on real trees.                    *)
EXTENDS NodeTree, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kids, par, typ, val
vars == <<l, kids, par, typ, val>>

TraceInit == l = 1 /\ kids = <<>> /\ par = <<>> /\ typ = <<>> /\ val = <<>>

\* a copy is logged as its nodes in preorder: [id, parent, typ, val, kids];
\* an id <= N is an original node, a larger one a new node
CopyBad(e, n, withkids) ==
    LET c == e.copy
        pos(id) == CHOOSE i \in DOMAIN c : c[i].id = id
        RECURSIVE sh(_)
        sh(i) == <<c[i].typ, c[i].val, [q \in DOMAIN c[i].kids |-> sh(pos(c[i].kids[q]))]>>
        want == IF withkids THEN Shape(kids, typ, val, n) ELSE <<typ[n], val[n], <<>>>>
    IN IF \E i \in DOMAIN c : c[i].id <= Len(kids) THEN {"copy-shares-node"}
       ELSE IF Cardinality({c[i].id : i \in DOMAIN c}) # Len(c) THEN {"copy-repeats-node"}
       ELSE (IF c[1].par # 0 THEN {"copy-has-parent"} ELSE {})
            \cup (IF \E i \in DOMAIN c : \E q \in SeqRange(c[i].kids) : c[pos(q)].par # c[i].id
                  THEN {"copy-parent-link"} ELSE {})
            \cup (IF sh(1) # want THEN {"copy-differs"} ELSE {})

Judge(e) ==
    LET r == Step(kids, par, e.op)
        err == e.err # "" IN
    (IF r.err # err THEN {IF err THEN "unexpected-failure" ELSE "missing-failure"} ELSE {})
    \cup (IF r.kids # e.kids THEN {"children-list"} ELSE {})
    \cup (IF r.par # e.par THEN {"parent-link"} ELSE {})
    \cup (IF ~err /\ ~r.err /\ e.op.o \in {"take", "pop", "index", "contains", "same"} /\ r.ret # e.ret
          THEN {"result"} ELSE {})
    \cup (IF ~err /\ e.op.o = "equals" /\
             e.ret # <<IF Shape(kids, typ, val, e.op.n) = Shape(kids, typ, val, e.op.x[1]) THEN 1 ELSE 0>>
          THEN {"equals"} ELSE {})
    \cup (IF ~err /\ e.op.o \in {"copy", "copy0"} THEN CopyBad(e, e.op.n, e.op.o = "copy") ELSE {})

TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.ev = "init"
       THEN kids' = e.kids /\ par' = e.par /\ typ' = e.typ /\ val' = e.val
       ELSE LET bad == Judge(e) IN
            /\ (IF bad = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, bad |-> bad])))
            /\ kids' = e.kids /\ par' = e.par /\ UNCHANGED <<typ, val>>

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
