---------------------------- MODULE PitchNamesMC ----------------------------
(* For every language, pitch and combination of preferences: the names that  *)
(* may be written.                                                           *)
EXTENDS PitchNames, TLC, Json, IOUtils
Tables == ndJsonDeserialize(IOEnv.TABLES)      \* [lang, names]
VARIABLES i, s, a, p
vars == <<i, s, a, p>>
NoP == [set |-> FALSE]
Prefs == [long : BOOLEAN, x : BOOLEAN, accented : BOOLEAN, classic : BOOLEAN, doubles : BOOLEAN, deprecated : BOOLEAN, set : {TRUE}]
Alters == {0 - 20, 0 - 15, 0 - 10, 0 - 5, 0, 5, 10, 15, 20, 30, 7}
Init == i \in DOMAIN Tables /\ s \in 0..6 /\ p = NoP
        /\ a \in Alters \cup {n.a : n \in RangeN(Tables[i].names)}
Next == /\ p = NoP /\ p' \in Prefs /\ UNCHANGED <<i, s, a>>
Spec == Init /\ [][Next]_vars
N == NamesOf(Tables[i].names, s, a)
Al == Allowed(Tables[i].lang, N, p)
NeverEmpty == p # NoP => (N # {} <=> Al # {}) /\ Al \subseteq N
Emit == p # NoP => PrintT(ToJson([lang |-> Tables[i].lang, s |-> s, a |-> a, p |-> p,
            names |-> {<<n.c, n.o>> : n \in Al}]))
=============================================================================
