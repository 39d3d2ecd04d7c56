------------------------------ MODULE Stream ------------------------------
(* The stream denoted by URL options o, stored content c and the clock:    *)
(* session parameters, availability of numbered segments, loop mapping.    *)
(*                                                                         *)
(* o: record of URL options (NONE when absent), see harness/options.py     *)
(* c: content description [first, n, D, tsbd, media]                       *)
EXTENDS Base

ExtraAfterEnd == 60          \* media stays reachable one minute after the end
DefaultShortMup == 10        \* update period when a start time is given

HasStart(o) == o.start # NONE \/ o.startrel # NONE
StartArg(o, now) == IF o.startrel # NONE THEN now + o.startrel ELSE o.start
HasStop(o) == HasStart(o) /\ (o.stop # NONE \/ o.stoprel # NONE)
StopArg(o, now) == IF o.stoprel # NONE THEN now + o.stoprel ELSE o.stop

\* ---- modulo sessions ---------------------------------------------------
ModPhase(mod, now) ==       \* percentage classes of the elapsed period
  LET s == (now % mod) * 100 IN
  IF s < 10 * mod THEN 20 ELSE IF s < 30 * mod THEN 40
  ELSE IF s < 50 * mod THEN 60 ELSE IF s < 90 * mod THEN 80 ELSE 120
ModAst(mod, now) == Quant(now, mod) + (IF ModPhase(mod, now) = 120 THEN mod ELSE 0)
ModDur(mod, now) == LET p == ModPhase(mod, now) IN
                    ((IF p = 120 THEN 20 ELSE p) * mod) \div 100
\* mod is a whole number of minutes, so this is exact (mod*p/100 = 12,24,..*minutes)

\* ---- session parameters -------------------------------------------------
\* "end list": successive ends of a session with several durations
DurEnds(o, c, start) == [i \in 1..Len(o.durs) |-> Quant(start + SumTo(o.durs, i), c.D)]
\* the first end that is still at least two update periods away, else the last one
DurIndex(ends, now, mup) ==
  LET ok == {i \in 1..Len(ends) : now <= ends[i] - 2 * mup} IN
  IF ok = {} THEN Len(ends) ELSE CHOOSE i \in ok : \A j \in ok : i <= j

FirstNumber(o, c, ast) ==        \* number of the first segment of the stream
  IF o.snr = -1 THEN 1
  ELSE o.snr + (IF o.timeoffset # NONE THEN (ast - o.timeoffset) \div c.D ELSE 0)

Eff(o, c, now) ==
  LET D == c.D
      start == StartArg(o, now)
      mod == 60 * o.modulo
      mup0 == IF o.mup # NONE THEN o.mup ELSE IF HasStart(o) THEN DefaultShortMup ELSE NONE
      ends == IF HasStart(o) THEN DurEnds(o, c, start) ELSE <<>>
      ix == DurIndex(ends, now, mup0)
      stopT == IF HasStop(o) THEN QuantUp(StopArg(o, now), D) ELSE NONE
      ast == IF o.modulo # 0 THEN ModAst(mod, now)
             ELSE IF o.cont # 0 THEN Quant(now - D, D)
             ELSE IF o.tfdt # 0 THEN Quant(now, 10800)
             ELSE IF HasStart(o) THEN Quant(start, D) ELSE 0
      aet == IF o.modulo # 0 THEN ast + ModDur(mod, now) + mod \div 20
             ELSE IF o.cont # 0 \/ o.tfdt # 0 THEN ast + 10800
             ELSE IF Len(ends) > 0 THEN ends[ix] ELSE NONE
      mpdur == IF o.modulo # 0 THEN ModDur(mod, now)
               ELSE IF o.cont # 0 \/ o.tfdt # 0 THEN 10800
               ELSE IF stopT # NONE THEN stopT - ast
               ELSE IF Len(ends) > 0 THEN SumTo(o.durs, ix) ELSE NONE
      mup == IF o.modulo # 0 THEN mod \div 20
             ELSE IF o.cont # 0 THEN 10800 ELSE IF o.tfdt # 0 THEN 5400 ELSE mup0
      tsbd == IF stopT # NONE THEN stopT - ast
              ELSE IF o.tsbd # NONE THEN o.tsbd ELSE c.tsbd
      first == FirstNumber(o, c, ast)
      pto == IF o.timeoffset # NONE THEN ast - o.timeoffset ELSE 0
      last == IF o.modulo # 0 THEN first + ModDur(mod, now) \div D - 1
              ELSE IF Len(ends) > 0 /\ o.tfdt = 0 /\ o.cont = 0
                   THEN first + (ends[Len(ends)] - ast) \div D - 1
              ELSE NONE
  IN [ast |-> ast, aet |-> aet, mpdur |-> mpdur, mup |-> mup, tsbd |-> tsbd, stop |-> stopT,
      first |-> first, pto |-> pto, last |-> last,
      stopnr |-> IF stopT = NONE THEN NONE ELSE first + (stopT - ast) \div D]

\* ---- availability of segment number n at instant t ---------------------
SegStart(e, c, n) == (n - e.first) * c.D + e.ast     \* wall clock start
SegEnd(e, c, n) == SegStart(e, c, n) + c.D

\* reasons to refuse; the segment is served iff there is none
RefusalsE(o, c, e, t, n) ==      \* e: the session parameters at t
  LET ta == TAddMs(t, IF o.ato = Inf THEN 0 ELSE o.ato)   \* clock advanced by the offset
      firstAvail == IF o.ato = Inf THEN e.ast ELSE e.ast + c.D
  IN  (IF TLess(ta, Sec(firstAvail)) THEN {"early"} ELSE {})
   \cup (IF e.aet # NONE /\ t[1] > e.aet + ExtraAfterEnd THEN {"late"} ELSE {})
   \cup (IF n < e.first THEN {"early"} ELSE {})
   \cup (IF e.stopnr # NONE /\ n >= e.stopnr THEN {"late"} ELSE {})
   \cup (IF e.last # NONE /\ n > e.last THEN {"late"} ELSE {})
   \cup (IF o.ato # Inf /\ TLess(ta, Sec(SegEnd(e, c, n))) THEN {"early"} ELSE {})
   \cup (IF o.ato # Inf /\ e.stop = NONE /\ TLess(Sec(SegEnd(e, c, n) + c.D + e.tsbd), t)
         THEN {"late"} ELSE {})
Refusals(o, c, t, n) == RefusalsE(o, c, Eff(o, c, t[1]), t, n)

Served(o, c, t, n) == Refusals(o, c, t, n) = {}

\* ---- position in the endless loop of the stored content ----------------
LoopPos(o, c, e, n) == ((n - e.first) * c.D + e.pto) \div c.D     \* global index >= 0
VodNr(c, k) == c.first + (k % c.n)
LoopsDone(c, k) == k \div c.n
LoopOffset(c, k) == (LoopsDone(c, k) * c.n) * c.D                   \* seconds
DecodeTime(c, ct, k) == LET m == c.media[ct] IN
  MTNorm(LoopOffset(c, k), m.start[(k % c.n) + 1], m.ts)
SegTicks(c, ct, k) == c.media[ct].dur[(k % c.n) + 1]
IsLast(e, n) == e.last # NONE /\ n = e.last

\* number of the segment addressed by a media time <<sec, ticks>>: the segment whose nominal
\* start is nearest (stored starts deviate by less than half a duration from the nominal grid)
NumberOfTime(o, c, e, mt, ts) ==
  LET half == (c.D * ts) \div 2
      s == MTAdd(mt, half, ts)
  IN e.first + (s[1] \div c.D) - (e.pto \div c.D)
=============================================================================
