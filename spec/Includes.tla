----------------------------- MODULE Includes ------------------------------
(* Which value a variable has at a place in a set of files that include      *)
(* each other.                                                               *)
(* A file is [at, items]: its path (a sequence of names, the last its own)   *)
(* and a sequence of items                                                   *)
(*   [k |-> "set", n, v, refs, len]  the variable n gets value v (a number   *)
(*        that identifies it); refs are the variables named in the value, in *)
(*        order; v is "ref" if len = -1: the value is the first of refs      *)
(*   [k |-> "inc", p]                include the file with path p            *)
(*   [k |-> "in"], [k |-> "out"]     a block such as \header begins, ends    *)
(*   [k |-> "use", n]                a reference                             *)
(* All items have all fields. A place is a chain: a sequence of <<f, i>>,    *)
(* item i of file f; all but the last are includes of the next file.         *)
EXTENDS Integers, Sequences, FiniteSets

None == <<>>
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* the path p, seen from the folder d; <<"/", ...>> is absolute
RECURSIVE Walk(_, _)
Walk(d, p) == IF p = <<>> THEN d
              ELSE Walk(IF Head(p) = ".." THEN (IF d = <<>> THEN d ELSE Front(d))
                        ELSE IF Head(p) = "." THEN d ELSE Append(d, Head(p)), Tail(p))
Join(d, p) == IF Head(p) = "/" THEN Walk(<<>>, Tail(p)) ELSE Walk(d, p)

\* c.files, c.rel: look in the folder of the including file first, c.path: other folders
FileAt(c, path) == LET F == {f \in DOMAIN c.files : c.files[f].at = path} IN IF F = {} THEN 0 ELSE CHOOSE f \in F : TRUE
Folder(c, f) == Front(c.files[f].at)
\* the file found for path p when included from (the last file of) the chain of files fs:
\* one that is already being included does not count
Resolve(c, fs, p) ==
    LET dirs == (IF c.rel THEN <<Folder(c, Last(fs))>> ELSE <<>>) \o <<Folder(c, fs[1])>> \o c.path
        found == [k \in DOMAIN dirs |-> FileAt(c, Join(dirs[k], p))]
        ok == {k \in DOMAIN found : found[k] # 0 /\ \A j \in DOMAIN fs : fs[j] # found[k]}
    IN IF ok = {} THEN 0 ELSE found[CHOOSE k \in ok : \A j \in ok : k <= j]
\* the paths where the file is looked for, every one once; not those of the
\* files we are in already
RECURSIVE Once(_, _)
Once(s, seen) == IF s = <<>> THEN <<>>
                 ELSE IF Head(s) \in seen THEN Once(Tail(s), seen)
                 ELSE <<Head(s)>> \o Once(Tail(s), seen \cup {Head(s)})
Tries(c, fs, p) ==
    LET dirs == (IF c.rel THEN <<Folder(c, Last(fs))>> ELSE <<>>) \o <<Folder(c, fs[1])>> \o c.path
    IN Once([k \in DOMAIN dirs |-> Join(dirs[k], p)], {c.files[fs[j]].at : j \in DOMAIN fs})
Files(chain) == [k \in DOMAIN chain |-> chain[k][1]]

\* ---- everything that is read before a place, in order, included files expanded:
\* a sequence of chains (the places of the items)
RECURSIVE Items(_, _, _, _)
Items(c, above, f, n) ==      \* the first n items of file f, included by the chain above
    IF n = 0 THEN <<>>
    ELSE LET x == c.files[f].items[n]
             here == Append(above, <<f, n>>)
             inc == IF x.k = "inc" THEN Resolve(c, Files(here), x.p) ELSE 0
         IN Items(c, above, f, n - 1) \o <<here>>
            \o (IF inc = 0 THEN <<>> ELSE Items(c, here, inc, Len(c.files[inc].items)))
RECURSIVE Before(_, _)
Before(c, chain) ==
    IF chain = <<>> THEN <<>>
    ELSE (IF Len(chain) = 1 THEN <<>> ELSE Append(Before(c, Front(chain)), Front(chain)))
         \o Items(c, Front(chain), Last(chain)[1], Last(chain)[2] - 1)
Item(c, place) == c.files[Last(place)[1]].items[Last(place)[2]]

\* the place where the value in force for variable n at the place was set, or None:
\* the last assignment before it in a block that is still open there
RECURSIVE Depth(_, _, _)
Depth(c, b, k) == IF k = 0 THEN 0 ELSE Depth(c, b, k - 1) +
    (IF Item(c, b[k]).k = "in" THEN 1 ELSE IF Item(c, b[k]).k = "out" THEN -1 ELSE 0)
InForce(c, place, n) ==
    LET b == Before(c, place)
        d == [k \in 0 .. Len(b) |-> Depth(c, b, k)]
        ok == {k \in DOMAIN b : /\ Item(c, b[k]).k = "set" /\ Item(c, b[k]).n = n
                                /\ \A j \in k .. Len(b) : d[j] >= d[k]}
    IN IF ok = {} THEN None ELSE b[CHOOSE k \in ok : \A j \in ok : j <= k]

\* the same, found by walking backward from the place: into included files, over closed
\* blocks, out of blocks and out of files (IncludesMC checks that it is the same)
RECURSIVE Opening(_, _, _)
Opening(items, i, d) == IF items[i].k = "in" THEN (IF d = 0 THEN i ELSE Opening(items, i - 1, d - 1))
                        ELSE Opening(items, i - 1, IF items[i].k = "out" THEN d + 1 ELSE d)
\* the place one step backward; None at the begin
Backward(c, at) ==
    LET f == Last(at)[1]
        i == Last(at)[2]
        here == Append(Front(at), <<f, i - 1>>)
        x == c.files[f].items[i - 1]
        inc == IF x.k = "inc" THEN Resolve(c, Files(here), x.p) ELSE 0
    IN IF i = 1 THEN Front(at)               \* before the include
       ELSE IF inc # 0 THEN Append(here, <<inc, Len(c.files[inc].items) + 1>>)
       ELSE IF x.k = "out" THEN Append(Front(at), <<f, Opening(c.files[f].items, i - 2, 0)>>)
       ELSE here
\* whether it is at an assignment of n
At(c, at, n) == LET x == c.files[Last(at)[1]].items IN
    Last(at)[2] <= Len(x) /\ x[Last(at)[2]].k = "set" /\ x[Last(at)[2]].n = n
RECURSIVE Search(_, _, _)
Search(c, at, n) == LET b == Backward(c, at) IN
    IF b = None THEN None ELSE IF At(c, b, n) THEN b ELSE Search(c, b, n)

\* the value behind a variable that is set to another variable
IsRef(x) == x.len = -1
RECURSIVE Follow(_, _, _)
Follow(c, place, n) ==
    LET p == Search(c, place, n) IN
    IF p = None THEN None
    ELSE IF IsRef(Item(c, p)) THEN Follow(c, p, Item(c, p).refs[1]) ELSE p

\* how long the music is that a variable stands for (0: nothing, or no music)
RECURSIVE Length(_, _, _), SumLengths(_, _, _)
SumLengths(c, place, names) ==
    IF names = <<>> THEN 0 ELSE Length(c, place, Head(names)) + SumLengths(c, place, Tail(names))
Length(c, place, n) ==
    LET p == Search(c, place, n) IN
    IF p = None THEN 0
    ELSE LET x == Item(c, p) IN (IF IsRef(x) THEN 0 ELSE x.len) + SumLengths(c, p, x.refs)

=============================================================================
