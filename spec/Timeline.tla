------------------------------ MODULE Timeline -----------------------------
(* Which segments a segment timeline lists (global loop indices k >= 0).    *)
EXTENDS Stream

LoopDur(c) == c.n * c.D

\* the latest segment starting at or before content second st
KCover(c, ct, st) ==
  LET m == c.media[ct]
      rel == (st % LoopDur(c)) * m.ts
  IN (st \div LoopDur(c)) * c.n + Cardinality({j \in 1..c.n : m.start[j] <= rel}) - 1

\* the first segment starting within half a duration of st (sessions recorded from their start)
KClosest(c, ct, st) ==
  LET m == c.media[ct]
      rel == (st % LoopDur(c)) * m.ts
      k == KCover(c, ct, st)
      j == (k % c.n) + 1
  IN IF rel - m.start[j] <= m.dur[j] \div 2 THEN k ELSE k + 1

\* the last segment completed at content second en (may be -1)
KDone(c, ct, en) ==
  LET m == c.media[ct]
      rel == (en % LoopDur(c)) * m.ts
  IN (en \div LoopDur(c)) * c.n + Cardinality({j \in 1..c.n : m.start[j] + m.dur[j] <= rel}) - 1

LastMediaEnd(o, c, e) == IF e.stop # NONE THEN e.stop
                         ELSE IF e.last # NONE THEN e.ast + (e.last - e.first + 1) * c.D ELSE NONE

\* Window of the timeline of a period starting at second ps after the availability start and
\* lasting pd seconds (NONE: open), asked for at time now: wall-clock seconds [from, to]
Window(o, c, e, now, ps, pd) ==
  LET nowp == IF e.stop # NONE THEN Min2(now, e.stop) ELSE now
      from == Max2(e.ast + ps, nowp - e.tsbd)
      to0 == IF pd = NONE THEN nowp ELSE Min2(nowp, e.ast + ps + pd)
      lme == LastMediaEnd(o, c, e)
      to == IF lme = NONE THEN to0 ELSE Min2(to0, lme)
  IN [from |-> from - e.ast + e.pto, to |-> to - e.ast + e.pto]   \* content time

KFirst(o, c, e, ct, w) == 
  IF e.stop # NONE /\ o.timeoffset = 0 THEN KClosest(c, ct, w.from)
  ELSE Max2(KCover(c, ct, w.from), KClosest(c, ct, e.pto))   \* nothing is served from before the start
\* complete, and past the nominal end from which on it is served
KLast(c, ct, w) == IF w.to < 0 THEN -1 ELSE Min2(KDone(c, ct, w.to), (w.to \div c.D) - 1)

Entry(c, ct, k) == LET d == DecodeTime(c, ct, k) IN <<d[1], d[2], SegTicks(c, ct, k)>>

TimelineOf(o, c, e, now, ps, pd, ct) ==
  LET w == Window(o, c, e, now, ps, pd)
      k0 == KFirst(o, c, e, ct, w)
      k1 == KLast(c, ct, w)
  IN [snr |-> k0 + e.first - (e.pto \div c.D),
      entries |-> [i \in 1..Max2(0, k1 - k0 + 1) |-> Entry(c, ct, k0 + i - 1)]]
=============================================================================
