-------------------------------- MODULE Retime ------------------------------
(* Retiming of subtitle cues: a cue time is clock text h:m:s.f with carry at *)
(* a reduced base; the segments of a looped content are played one after the *)
(* other, each cue is shifted by the loop offset of its segment.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS B, N, D, Cues, MaxLoop      \* base of minutes and seconds, segments per loop, seconds per segment, cues per segment
VARIABLES k, shown                     \* global segment index, the cues shown so far as <<h, m, s, f>> pairs
vars == <<k, shown>>
F == 4                                 \* fractions per second
Clock(q) == LET s == q \div F IN <<s \div (B * B), (s \div B) % B, s % B, q % F>>     \* q: quarter seconds
Value(t) == ((t[1] * B + t[2]) * B + t[3]) * F + t[4]
Shift(t, off) ==                       \* only whole seconds are added, the fraction text is kept
  LET s == (t[1] * B + t[2]) * B + t[3] + off IN <<s \div (B * B), (s \div B) % B, s % B, t[4]>>
StoredBegin(i, c) == Clock((i * D * F) + (D * F * c) \div Cues)
StoredEnd(i, c) == Clock((i * D * F) + (D * F * (c + 1)) \div Cues)
Offset(x) == (x \div N) * N * D
Init == k = 0 /\ shown = <<>>
Next == /\ k < N * MaxLoop
        /\ shown' = shown \o [c \in 1..Cues |-> <<Shift(StoredBegin(k % N, c - 1), Offset(k)), Shift(StoredEnd(k % N, c - 1), Offset(k))>>]
        /\ k' = k + 1
Spec == Init /\ [][Next]_vars
WellFormed == \A i \in DOMAIN shown : \A j \in 1..2 : shown[i][j][2] \in 0..(B - 1) /\ shown[i][j][3] \in 0..(B - 1) /\ shown[i][j][4] \in 0..(F - 1)
\* cues follow each other without gap, overlap or jump, also across the end of the loop
Seamless == \A i \in 1..(Len(shown) - 1) : Value(shown[i][2]) = Value(shown[i + 1][1])
Ordered == \A i \in DOMAIN shown : Value(shown[i][1]) <= Value(shown[i][2])
LiveTime == \A i \in DOMAIN shown : LET g == (i - 1) \div Cues IN Value(shown[i][1]) \in (g * D * F)..((g + 1) * D * F)
=============================================================================
