-------------------------------- MODULE Pitches --------------------------------
(* Pitches as they are written and as they sound, and the intervals between  *)
(* them. A written pitch is <<n, a, o>>: the step in the scale (0 is c), the *)
(* alteration in quarter tones and the number of octave marks. A sounding    *)
(* pitch is <<s, h>>: the number of steps and of quarter tones above the     *)
(* middle c. An interval is the difference of two sounding pitches.          *)
EXTENDS Integers, Sequences
Scale == <<0, 4, 8, 10, 14, 18, 22>>
Floor(a, b) == a \div b
Mod7(s) == s % 7
At(s, a) == <<s, 24 * Floor(s, 7) + Scale[Mod7(s) + 1] + a>>
\* the alteration of a sounding pitch
Alter(p) == p[2] - At(p[1], 0)[2]
\* without a mark a pitch sounds in the octave below the middle c
Absolute(w) == At(w[1] + 7 * (w[3] - 1), w[2])
Plus(p, i) == <<p[1] + i[1], p[2] + i[2]>>
Minus(p, q) == <<p[1] - q[1], p[2] - q[2]>>
Inverse(i) == <<-i[1], -i[2]>>
Zero == <<0, 0>>
Octave(n) == <<7 * n, 24 * n>>
\* the pitch with at most a double alteration that sounds the same
RECURSIVE Respell(_)
Respell(p) == IF Alter(p) > 4 THEN Respell(<<p[1] + 1, p[2]>>)
              ELSE IF Alter(p) < -4 THEN Respell(<<p[1] - 1, p[2]>>)
              ELSE p
\* the step of the given name that is nearest to a pitch
Nearest(s, n) == LET d == (n - s) % 7 IN IF d > 3 THEN s + d - 7 ELSE s + d
\* a written pitch, relative to a previous one
Relative(w, p) == At(Nearest(p[1], w[1]) + 7 * w[3], w[2])
\* the written pitch that sounds so, absolute and relative to a previous pitch
WriteAbsolute(q) == <<Mod7(q[1]), Alter(q), Floor(q[1], 7) + 1>>
WriteRelative(q, p) == <<Mod7(q[1]), Alter(q), (q[1] - Nearest(p[1], Mod7(q[1]))) \div 7>>
\* ---------------------------------------------------------------- the laws
PitchLaws(w, p) ==
    /\ WriteAbsolute(Absolute(w)) = w
    /\ WriteRelative(Relative(w, p), p) = w
    /\ Relative(<<w[1], w[2], 0>>, p)[1] - p[1] \in -3..3
TransposeLaws(p, i, j) ==
    /\ Plus(Plus(p, i), Inverse(i)) = p
    /\ Plus(Plus(p, i), j) = Plus(p, Plus(i, j))
    /\ Respell(p)[2] = p[2] /\ Alter(Respell(p)) \in -4..4
    /\ Respell(Plus(Respell(p), i))[2] = p[2] + i[2]
=============================================================================
