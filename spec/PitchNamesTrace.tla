-------------------------- MODULE PitchNamesTrace --------------------------
EXTENDS PitchNames, TLC, Json, IOUtils
Tables == ndJsonDeserialize(IOEnv.TABLES)
TableOf == [lang \in {Tables[i].lang : i \in DOMAIN Tables} |-> (CHOOSE i \in DOMAIN Tables : Tables[i].lang = lang)]
T(lang) == Tables[TableOf[lang]].names
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
W(e) == NamesOf(T(e.lang), e.pit[2], e.pit[3])
Bad(e) ==
    CASE e.ev = "read" ->       \* a note read from a node
           IF Knows(T(e.lang), e.c) THEN IF e.err = "" /\ e.pit = PitchOf(T(e.lang), e.c, e.marks) THEN {} ELSE {"read"}
           ELSE IF e.err = "KeyError" THEN {} ELSE {"unknown-name"}
      [] e.ev = "write" ->      \* a pitch written to a node that had the name c
           IF W(e) = {} THEN IF e.err = "KeyError" /\ e.c2 = e.c /\ e.marks2 = e.marks THEN {} ELSE {"unknown-pitch"}
           ELSE IF e.err # "" THEN {"write-failure"}
           ELSE (IF Denotes(T(e.lang), e.c2, e.marks2, e.pit) THEN {} ELSE {"write"})
                \cup (IF \E n \in W(e) : n.c = e.c
                      THEN IF e.c2 = e.c THEN {} ELSE {"name-not-kept"}
                      ELSE IF \E n \in Allowed(e.lang, W(e), e.p) : n.c = e.c2 THEN {} ELSE {"preference"})
      [] e.ev = "distil" ->
           UNION {LET pit == PitchOf(T(e.lang), e.names[k], 0)
                      N == NamesOf(T(e.lang), pit[2], pit[3]) IN
                  IF \E n \in Allowed(e.lang, N, e.p) : n.c = e.out[k] THEN {} ELSE {"distil"} : k \in DOMAIN e.names}
      [] e.ev = "which" ->
           LET want == {g \in DOMAIN TableOf : \A k \in DOMAIN e.names : e.names[k] \in {<<"r">>, <<"R">>, <<"s">>, <<"q">>} \/ Knows(T(g), e.names[k])}
           IN IF RangeN(e.out) = want /\ Cardinality(RangeN(e.out)) = Len(e.out) THEN {} ELSE {"which-language"}
      [] e.ev = "doc" ->        \* notes of a document, each with the commands before it
           UNION {LET k == e.notes[x]  g == LangAt(SubSeq(e.cmds, 1, k.n), e.start) IN
                  (IF k.found = LangAt(SubSeq(e.cmds, 1, k.n), e.start) THEN {} ELSE {"find-language"})
                  \cup (IF k.followed = g THEN {} ELSE {"follow-language"})
                  \cup (IF k.pit = PitchOf(T(g), k.c, k.marks) THEN {} ELSE {"read-in-language"})
                  \cup (IF ~k.renamed \/ (k.err = "" /\ Denotes(T(e.to), k.c2, k.marks2, k.pit)) THEN {} ELSE {"rename"})
                  : x \in DOMAIN e.notes}
           \cup (IF e.yielded = e.expected THEN {} ELSE {"follow-yields"})
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Bad(Trace[l]) = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, bad |-> Bad(Trace[l])]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
