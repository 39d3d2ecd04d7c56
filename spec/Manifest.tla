------------------------------ MODULE Manifest -----------------------------
(* The manifest a stream has at a given second: configuration, periods,     *)
(* templates and timelines; which manifests are refused.                    *)
EXTENDS Timeline

GoodPeriodRates == {-1, 0, 1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60}
Rate(x) == Min2(x, 60)
HasTimeline(o) == o.segtimeline = 1 \/ o.segtimelinenr = 1
AddLocation(o) == o.startrel # NONE \/ o.stoprel # NONE
MultiPeriod(o) == Rate(o.periods) > 0

\* rates that make the manifest impossible: it is refused
BadRates(o) ==
  LET P == Rate(o.periods)
      Divides(x) == P % Rate(x) = 0 /\ Rate(x) <= P
  IN \/ P \notin GoodPeriodRates
     \/ o.xlink > 0 /\ P <= 0
     \/ o.xlink > 0 /\ ~Divides(o.xlink)
     \/ o.insertad > 0 /\ o.xlink <= 0
     \/ P > 0 /\ o.etp > 0 /\ (~Divides(o.etp) \/ o.etpDuration > 3600 \div P)
     \/ P > 0 /\ o.mpdcallback > 0 /\ ~Divides(o.mpdcallback)
BadOptions(o) ==
  \/ o.modulo # 0 /\ HasStart(o)
  \/ o.cont # 0 /\ o.tfdt # 0
KnownUtc == {"direct", "head", "ntp", "sntp", "httpxsdate", "httpiso"}
BadUtc(o) == \E i \in DOMAIN o.utc : o.utc[i] \notin KnownUtc
MpdRefused(o) == BadOptions(o) \/ BadRates(o) \/ BadUtc(o)

PeriodLen(o) == 3600 \div Rate(o.periods)
Selected(o, rate, nr) == rate > 0 /\ nr % (Rate(o.periods) \div Rate(rate)) = 0

FirstPeriod(o, c, e, now) == Max2(0, (now - e.ast - e.tsbd - c.D) \div PeriodLen(o))
LastPeriod(o, c, e, now) == Max2(0, (now - e.ast + PeriodLen(o) \div 2) \div PeriodLen(o))

\* explicit duration written on period nr (NONE: none); nx: is there a following listed period
ExplicitDur(o, nr, isLast) ==
  IF o.insertad > 0 /\ ~isLast /\ Selected(o, o.xlink, nr + 1) THEN PeriodLen(o)
  ELSE IF Selected(o, o.etp, nr) THEN (IF o.etpDuration = -1 THEN PeriodLen(o) \div 2 ELSE o.etpDuration)
  ELSE NONE
\* duration that bounds the timeline
EffDur(o, nr, isLast) ==
  IF ExplicitDur(o, nr, isLast) # NONE THEN ExplicitDur(o, nr, isLast)
  ELSE IF isLast THEN NONE ELSE PeriodLen(o)

PeriodsOf(o, c, e, now) ==
  IF ~MultiPeriod(o)
  THEN LET ps == IF Rate(o.periods) = 0 THEN 3600000 ELSE 0 IN
       <<[nr |-> 0, start |-> ps, dur |-> NONE, eff |-> NONE, snr |-> e.first + ps \div c.D,
          pto |-> e.pto + ps, prev |-> -1, callback |-> FALSE]>>
  ELSE LET f == FirstPeriod(o, c, e, now)
           l == LastPeriod(o, c, e, now)
           L == PeriodLen(o)
       IN [i \in 1..(l - f + 1) |->
            LET nr == f + i - 1 IN
            [nr |-> nr, start |-> nr * L, dur |-> ExplicitDur(o, nr, nr = l), eff |-> EffDur(o, nr, nr = l),
             snr |-> e.first + (nr * L) \div c.D, pto |-> e.pto + nr * L,
             prev |-> IF i = 1 THEN -1 ELSE nr - 1, callback |-> Selected(o, o.mpdcallback, nr)]]

IsStatic(e, now) == e.stop # NONE /\ now > e.stop

Mup(o, c, e, now) ==
  IF IsStatic(e, now) THEN NONE
  ELSE IF HasTimeline(o) THEN 0
  ELSE IF MultiPeriod(o) THEN PeriodLen(o) \div 2 - 5
  ELSE IF e.mup = NONE THEN -2 ELSE e.mup

\* e: session parameters at the request, now: the second the manifest describes
ManifestAt(o, c, e, now) ==
  [static |-> IsStatic(e, now), ast |-> e.ast, aet |-> e.aet, pub |-> now, mup |-> Mup(o, c, e, now),
   tsbd |-> IF e.mpdur # NONE \/ IsStatic(e, now) THEN NONE ELSE e.tsbd, mpdur |-> e.mpdur,
   maxdur |-> IF HasTimeline(o) THEN NONE ELSE c.D, spd |-> o.spd, periods |-> PeriodsOf(o, c, e, now)]
ManifestOf(o, c, now) == ManifestAt(o, c, Eff(o, c, now), now)

----------------------------------------------------------------------------
\* What a client computes from a manifest with $Number$ templates.
\* p: period [start, snr, pto, D], ast, ato(ms), tsbd; t: instant
ClientNewest(ast, p, ato, t) ==     \* newest complete segment at t (may be below snr)
  LET ta == TAddMs(t, ato) IN p.snr + ((ta[1] - ast - p.start) \div p.D) - 1
ClientOldest(ast, p, tsbd, t) ==    \* oldest segment still in the buffer
  LET x == t[1] - ast - p.start - tsbd IN Max2(p.snr, p.snr + (x \div p.D) - (IF x % p.D = 0 /\ t[2] = 0 THEN 1 ELSE 0))
ClientMediaTime(p, n) == p.pto + (n - p.snr) * p.D
=============================================================================
