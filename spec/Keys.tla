-------------------------------- MODULE Keys --------------------------------
(* Pitches, MIDI keys and key signatures.  Steps are 0..6 (C..B), alters are *)
(* in semitones, octave 0 starts at middle C.  Signatures follow from the    *)
(* circle of fifths: fifth number 0 is C, 1 is G, -1 is F ...                *)
EXTENDS Integers, Sequences, FiniteSets

Semi == <<0, 2, 4, 5, 7, 9, 11>>                 \* of the steps
Fifth0 == <<0, 2, 4, 0 - 1, 1, 3, 5>>            \* fifth number of the plain steps
NoteOf(k) == CHOOSE s \in 0..6 : (Fifth0[s + 1] - k) % 7 = 0
AlterOf(k) == (k - Fifth0[NoteOf(k) + 1]) \div 7
FifthOf(note, alter) == Fifth0[note + 1] + 7 * alter
Key(octave, note, alter) == (octave + 5) * 12 + Semi[note + 1] + alter
Class(note, alter) == (Semi[note + 1] + alter) % 12

\* --- modes: number of fifths below major
ModeFlats == [major |-> 0, minor |-> 3, ionian |-> 0, dorian |-> 2, phrygian |-> 4, lydian |-> 0 - 1,
              mixolydian |-> 1, aeolian |-> 3, locrian |-> 5]
\* alteration of each step in the signature with k sharps (k < 0: flats)
\* the seven notes of the scale are the fifth numbers k-1 .. k+5
SigAlter(k, step) == LET f == CHOOSE x \in (k - 1)..(k + 5) : NoteOf(x) = step IN AlterOf(f)
Signature(note, alter, mode) ==
    LET k == FifthOf(note, alter) - ModeFlats[mode] IN [i \in 1..7 |-> SigAlter(k, i - 1)]
\* a custom mode: list of alterations relative to the major key of the tonic
Custom(note, alter, mode) ==
    LET maj == Signature(note, alter, "major") IN
    [i \in 1..7 |-> maj[i] + mode[((i - 1 - note) % 7) + 1]]
\* the mode as list of alterations, by its number of flats
ModeList(mode) == Signature(0, 0, mode)
\* the scale of white keys starting at step off, moved to C
OffsetMode(off) == LET k == 0 - FifthOf(off % 7, 0) IN [i \in 1..7 |-> SigAlter(k, i - 1)]

\* --- a default spelling of the twelve keys above C: sharps, except the flats
\* flats: set of semitones
PlainChrom(flats) == [i \in 1..12 |->
    LET st == i - 1
        below == CHOOSE s \in 0..6 : Semi[s + 1] <= st /\ \A u \in 0..6 : Semi[u + 1] <= st => Semi[u + 1] <= Semi[s + 1]
    IN IF Semi[below + 1] = st THEN <<below, 0>>
       ELSE IF st \in flats THEN <<below + 1, st - Semi[below + 2]>>
       ELSE <<below, st - Semi[below + 1]>>]
\* moved up by the interval from C to (note, alter) (fifths add up), listed by pitch class
Chrom(note, alter, flats) ==
    LET P == PlainChrom(flats)
        moved == {LET k == FifthOf(P[i][1], P[i][2]) + FifthOf(note, alter) IN <<NoteOf(k), AlterOf(k)>> : i \in 1..12}
    IN [i \in 1..12 |-> CHOOSE m \in moved : Class(m[1], m[2]) = i - 1]
\* the preferred spelling of a key in a key signature: scale notes first
Spell(sig, note, alter, flats) ==
    CHOOSE R \in {[i \in 1..12 |->
        LET s == {x \in 0..6 : Class(x, sig[x + 1]) = i - 1} IN
        IF s = {} THEN C[i] ELSE LET x == CHOOSE x \in s : \A y \in s : y <= x IN <<x, sig[x + 1]>>]
        : C \in {Chrom(note, alter, flats)}} : TRUE
\* the pitch with that spelling that sounds as key
PitchIn(S, key) == LET sp == S[(key % 12) + 1] IN
    <<(key - Semi[sp[1] + 1] - sp[2]) \div 12 - 5, sp[1], sp[2]>>
=============================================================================
