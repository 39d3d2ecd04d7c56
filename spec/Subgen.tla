------------------------------- MODULE Subgen ------------------------------
(* Generated subtitle content. p: [n, d, r, lang, track]: number of         *)
(* segments, their duration <<sec, ms>>, resolution of the cues (ms).       *)
(* Segment k (from 1) covers [At(k), At(k + 1)), its cues tile it.          *)
EXTENDS Base

Ms(d) == d[1] * 1000 + d[2]
At(p, k) == MTNorm((k - 1) * p.d[1], (k - 1) * p.d[2], 1000)
NCues(p) == (Ms(p.d) + p.r - 1) \div p.r
Cue(p, k, j) == [b |-> TAddMs(At(p, k), (j - 1) * p.r), e |-> TAddMs(At(p, k), Min2(j * p.r, Ms(p.d)))]
CuesOf(p, k) == [j \in 1..NCues(p) |-> Cue(p, k, j)]
=============================================================================
