---------------------------- MODULE IncludesMC -----------------------------
(* Files are written item by item; then a variable is searched from the end  *)
(* of the first file by walking backward: stepping into included files, over *)
(* closed blocks and out of blocks and files. The walk always ends, and it   *)
(* finds the value in force. Every set of files is printed.                  *)
EXTENDS Includes, TLC, Json
CONSTANTS NFiles, MaxItems, Blocks
VARIABLES c, at, result
vars == <<c, at, result>>
Places == << <<"d", "r">>, <<"d", "x">>, <<"l", "x">> >>
Paths == {<<"x">>, <<"r">>, <<"..", "l", "x">>, <<"n">>}
NoItem == [k |-> "", n |-> "", v |-> "", refs |-> <<>>, len |-> 0, p |-> <<>>]
SetTo(v) == [NoItem EXCEPT !.k = "set", !.n = "x", !.v = v, !.len = 1]
SetRef(n) == [NoItem EXCEPT !.k = "set", !.n = n, !.v = "ref", !.refs = <<"x">>, !.len = -1]
Inc(p) == [NoItem EXCEPT !.k = "inc", !.p = p]
Tok(k) == [NoItem EXCEPT !.k = k]
Total == LET RECURSIVE S(_)
             S(f) == IF f = 0 THEN 0 ELSE Len(c.files[f].items) + S(f - 1) IN S(NFiles)
RECURSIVE Open(_, _)
Open(s, i) == IF i = 0 THEN 0 ELSE Open(s, i - 1) + (IF s[i].k = "in" THEN 1 ELSE IF s[i].k = "out" THEN -1 ELSE 0)
OpenIn(f) == Open(c.files[f].items, Len(c.files[f].items))
Budget == LET RECURSIVE S(_)
              S(f) == IF f = 0 THEN 0 ELSE OpenIn(f) + S(f - 1) IN MaxItems - Total - S(NFiles)

Init == /\ \E rel \in BOOLEAN, path \in {<<>>, << <<"l">> >>} :
                c = [files |-> [f \in 1 .. NFiles |-> [at |-> Places[f], items |-> <<>>]], rel |-> rel, path |-> path]
        /\ at = <<>> /\ result = << <<0, 0>> >>
\* the files are written in order; a file is not written any more if a later one has items
Write(f, x) == /\ at = <<>> /\ \A g \in f + 1 .. NFiles : c.files[g].items = <<>>
               /\ \A g \in 1 .. f - 1 : OpenIn(g) = 0
               /\ c' = [c EXCEPT !.files[f].items = Append(@, x)]
               /\ UNCHANGED <<at, result>>
Writing == \E f \in 1 .. NFiles :
    \/ /\ Budget > 0
       /\ \/ Write(f, SetTo(ToString(10 * f + Len(c.files[f].items))))
          \/ \E n \in {"x", "y"} : Write(f, SetRef(n))
          \/ \E p \in Paths : Write(f, Inc(p))
    \/ Blocks /\ Budget > 1 /\ Write(f, Tok("in"))
    \/ OpenIn(f) > 0 /\ Last(c.files[f].items).k # "in" /\ Write(f, Tok("out"))
Begin == /\ at = <<>> /\ \A f \in 1 .. NFiles : OpenIn(f) = 0
         /\ at' = << <<1, Len(c.files[1].items) + 1>> >>
         /\ UNCHANGED <<c, result>>
Searching == at # <<>> /\ result = << <<0, 0>> >>
\* one step backward
Step == /\ Searching
        /\ UNCHANGED c
        /\ LET b == Backward(c, at) IN
           IF b = None THEN result' = None /\ UNCHANGED at      \* nothing left
           ELSE IF At(c, b, "x") THEN result' = b /\ UNCHANGED at
           ELSE at' = b /\ UNCHANGED result
Next == Writing \/ Begin \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)
Terminates == Searching ~> ~Searching
Start == << <<1, Len(c.files[1].items) + 1>> >>
FindsIt == (at # <<>> /\ ~Searching) => result = InForce(c, Start, "x")
\* a file is never included within itself, so that chains have at most NFiles files
Finite == \A j, k \in DOMAIN at : (j # k) => at[j][1] # at[k][1]
\* following references ends, at something that is no reference
Ends == (at # <<>> /\ ~Searching) => LET p == Follow(c, Start, "y") IN p = None \/ ~IsRef(Item(c, p))
Emit == IF at = Start /\ Searching THEN PrintT(ToJson(c)) ELSE TRUE
=============================================================================
