------------------------------- MODULE Settings -------------------------------
(* The named settings of a document or block as one ordered map.             *)
(*                                                                           *)
(* A block is a sequence of entries [k, n, v, x]: a setting (k = "var") with *)
(* a name, a value and the comments inside it (x), a comment ("com"), the    *)
(* version ("version", whose value is v) or anything else ("item").          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Var(n, v) == [k |-> "var", n |-> n, v |-> v, x |-> ""]
None == "none"
At(s, n) == {i \in DOMAIN s : s[i].k = "var" /\ s[i].n = n}
Latest(r) == CHOOSE i \in r : \A j \in r : j <= i
\* the value that is in force is the one set last
Get(s, n) == IF At(s, n) = {} THEN None ELSE s[Latest(At(s, n))].v
Set(s, n, v) == IF At(s, n) = {} THEN Append(s, Var(n, v)) ELSE [s EXCEPT ![Latest(At(s, n))].v = v]
Unset(s, n) == SelectSeq(s, LAMBDA e : ~(e.k = "var" /\ e.n = n))
Entries(s) == SelectSeq(s, LAMBDA e : e.k = "var")
Names(s) == [i \in DOMAIN Entries(s) |-> Entries(s)[i].n]
Others(s, n) == Unset(s, n)
\* the version of a document is at the start
Versions(s) == {i \in DOMAIN s : s[i].k = "version"}
First(r) == CHOOSE i \in r : \A j \in r : i <= j
GetVersion(s) == IF Versions(s) = {} THEN None ELSE s[First(Versions(s))].v
SetVersion(s, v) == IF Versions(s) = {} THEN <<[k |-> "version", n |-> "", v |-> v, x |-> ""]>> \o s
                    ELSE [s EXCEPT ![First(Versions(s))].v = v]
\* op: [op, n, v]
Apply(s, op) ==
    CASE op.op = "set" -> Set(s, op.n, op.v)
      [] op.op = "unset" -> Unset(s, op.n)
      [] op.op = "setversion" -> SetVersion(s, op.v)
      [] OTHER -> s         \* writing it and reading it back
\* ---------------------------------------------------------------- the laws
MapLaws(s, n, m, v) ==
    /\ Get(Set(s, n, v), n) = v
    /\ Get(Unset(s, n), n) = None
    /\ m # n => Get(Set(s, n, v), m) = Get(s, m) /\ Get(Unset(s, n), m) = Get(s, m)
    /\ Others(Set(s, n, v), n) = Others(s, n)
    /\ Set(Set(s, n, v), n, v) = Set(s, n, v)
    /\ Unset(Unset(s, n), n) = Unset(s, n)
    /\ Get(s, n) # None => Names(Set(s, n, v)) = Names(s)
    /\ Get(s, n) = None => Names(Set(s, n, v)) = Append(Names(s), n) /\ Unset(Set(s, n, v), n) = s
    /\ GetVersion(Set(s, n, v)) = GetVersion(s)
VersionLaws(s, v) ==
    /\ GetVersion(SetVersion(s, v)) = v
    /\ Entries(SetVersion(s, v)) = Entries(s)
=============================================================================
