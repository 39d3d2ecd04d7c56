------------------------------- MODULE LiveSim -----------------------------
(* The system: a server with stored content c, one stream o (a set of URL   *)
(* options), the clock t, and a client that fetches manifests and segments. *)
(* The server itself has no memory: every reply is the value of an operator *)
(* of Stream/Timeline/Manifest/Outage/Splice at (o, c, t). State that       *)
(* exists is the client's: what it saw before. The model checker explores   *)
(* all streams of a group, all clock values up to the horizon and all       *)
(* moments at which a client may ask.                                       *)
EXTENDS Outage, Splice

CONSTANTS Group,     \* which family of streams
          T0,        \* first instant (seconds)
          Horizon,   \* seconds to run
          StepMs     \* clock granularity

VARIABLES c, o, t,
          E,         \* session parameters at t
          ServedNow, \* numbers of the segments that are served at t (within the numbers observed)
          M,         \* the manifest at t
          seen       \* the client's last manifest: [at, mpd, tl] or <<>>
vars == <<c, o, t, E, ServedNow, M, seen>>

O0 == [start |-> NONE, stop |-> NONE, startrel |-> NONE, stoprel |-> NONE, durs |-> <<>>, timeoffset |-> NONE, init |-> 0,
       tsbd |-> NONE, mup |-> NONE, modulo |-> 0, tfdt |-> 0, cont |-> 0, periods |-> -1, xlink |-> -1, etp |-> -1,
       etpDuration |-> -1, insertad |-> -1, mpdcallback |-> -1, continuous |-> 0, segtimeline |-> 0, segtimelinenr |-> 0,
       baseurl |-> <<>>, peroff |-> -1, scte35 |-> 0, utc |-> <<>>, snr |-> 0, ato |-> 0, spd |-> NONE, sidx |-> 0,
       segtimelineloss |-> 0, chunkdur |-> 0]

Track(ts, durs) == [ts |-> ts, dur |-> durs, start |-> [i \in DOMAIN durs |-> SumTo(durs, i - 1)]]
NoTrack == [ts |-> 0, dur |-> <<>>, start |-> <<>>]
Content(first, D, tsbd, video, audio) ==
  [first |-> first, n |-> Len(video.dur), D |-> D, tsbd |-> tsbd,
   media |-> [video |-> video, audio |-> audio, subtitles |-> NoTrack, image |-> NoTrack], cts |-> <<"video", "audio">>]
CA == Content(1, 2, 4, Track(4, <<8, 8, 8>>), Track(12, <<23, 25, 24>>))
CB == Content(5, 3, 5, Track(2, <<6, 6>>), Track(10, <<32, 28>>))
CC == Content(0, 4, 6, Track(1, <<4>>), Track(3, <<12>>))
CD == Content(7, 10, 30, Track(2, <<20, 20>>), Track(6, <<61, 59>>))

\* streams of each group
PlainStreams ==
  {[O0 EXCEPT !.start = st, !.stop = sp, !.timeoffset = of, !.tsbd = tb, !.ato = ao, !.snr = nr] :
     st \in {NONE, 100, 103}, sp \in {NONE, 109, 112}, of \in {NONE, 0, 1}, tb \in {NONE, 0, 3}, ao \in {0, 500, 1500, Inf}, nr \in {0, 3, -1}}
GoodPlain(x, cc) ==
  LET e == Eff(x, cc, T0) IN
  /\ x.start = NONE => x.stop = NONE /\ x.timeoffset = NONE
  /\ x.timeoffset \in {0, 1} => x.snr # -1 /\ e.pto % cc.D = 0
DurStreams == {[O0 EXCEPT !.start = st, !.durs = d, !.mup = m, !.ato = ao, !.segtimeline = tl] :
                 st \in {100, 101}, d \in {<<12>>, <<12, 24>>, <<12, 12, 24>>}, m \in {NONE, 1, 2}, ao \in {0, 500}, tl \in {0, 1}}
RelStreams == {[O0 EXCEPT !.startrel = a, !.stoprel = b, !.segtimeline = tl] : a \in {-20, -7, 0}, b \in {NONE, 12, 13}, tl \in {0, 1}}
PinnedStreams == {[O0 EXCEPT !.start = a, !.stop = b, !.segtimeline = tl] : a \in {100, 107}, b \in {NONE, 112, 121}, tl \in {0, 1}}
ModuloStreams == {[O0 EXCEPT !.modulo = m] : m \in {1, 2}}
RestartStreams == {[O0 EXCEPT !.tfdt = 1], [O0 EXCEPT !.cont = 1]}
TimelineStreams ==
  {[O0 EXCEPT !.start = st, !.stop = sp, !.tsbd = tb, !.segtimeline = tl, !.segtimelinenr = 1 - tl, !.snr = nr, !.timeoffset = of] :
     st \in {NONE, 100, 103}, sp \in {NONE, 111, 118}, tb \in {NONE, 0, 1, 9}, tl \in {0, 1}, nr \in {0, 3}, of \in {NONE, 0}}
PeriodStreams ==
  {[O0 EXCEPT !.start = st, !.tsbd = tb, !.periods = 60, !.xlink = x, !.etp = ep, !.etpDuration = ed, !.mpdcallback = cb,
              !.insertad = ad, !.segtimeline = tl] :
     st \in {NONE, 100}, tb \in {NONE, 0, 70}, x \in {-1, 30, 20}, ep \in {-1, 20}, ed \in {-1, 36}, cb \in {-1, 12}, ad \in {-1, 1}, tl \in {0, 1}}
OutageStreams ==
  {[O0 EXCEPT !.baseurl = <<[first |-> f, a |-> a, b |-> b]>>, !.segtimelineloss = l, !.segtimeline = l] :
     f \in {"u", "d"}, a \in {1, 7, 10, 20, 40, 59}, b \in {1, 9, 10, 20}, l \in {0, 1}}
SpliceStreams == {[O0 EXCEPT !.scte35 = r] : r \in {0, 1, 2, 3}}

Streams(cc) == CASE Group = "plain" -> {x \in PlainStreams : GoodPlain(x, cc)}
                 [] Group = "durs" -> DurStreams
                 [] Group = "rel" -> RelStreams
                 [] Group = "pinned" -> PinnedStreams
                 [] Group = "modulo" -> ModuloStreams
                 [] Group = "restart" -> RestartStreams
                 [] Group = "timeline" -> {x \in TimelineStreams : GoodPlain(x, cc)}
                 [] Group = "periods" -> {x \in PeriodStreams : ~BadRates(x) /\ (x.insertad > 0 => x.xlink > 0) /\ (x.etp <= 0 => x.etpDuration = -1)}
                 [] Group = "outage" -> OutageStreams
                 [] Group = "splice" -> SpliceStreams
Contents == CASE Group \in {"splice"} -> {CA, CB, CC, CD,
                     Content(1, 5, 4, Track(2, <<10, 10>>), Track(2, <<10, 10>>)), Content(1, 7, 4, Track(2, <<14>>), Track(2, <<14>>)),
                     Content(1, 1, 4, Track(2, <<2>>), Track(2, <<2>>)), Content(1, 9, 4, Track(2, <<18>>), Track(2, <<18>>))}
              [] Group = "periods" -> {CA, CC, CD}
              [] Group = "outage" -> {CA}
              [] OTHER -> {CA, CB, CC}

NumsOf(oo, cc, e) ==
  LET hi == e.first + Max2(0, (T0 + Horizon - e.ast) \div cc.D) + 3
      lo == hi - (Horizon + 16) \div cc.D - 8
  IN Max2(0, lo)..hi
Nums == NumsOf(o, c, E)
ServedSet(oo, cc, e, tt) == {n \in NumsOf(oo, cc, e) : RefusalsE(oo, cc, e, tt, n) = {}}
Cts == {"video", "audio"}
TL(ct) == TimelineOf(o, c, E, t[1], 0, NONE, ct)
MultiTL(ct) == [j \in DOMAIN M.periods |-> TimelineOf(o, c, E, t[1], M.periods[j].start, M.periods[j].eff, ct)]
View == [at |-> t, mpd |-> M,
         tl |-> IF ~HasTimeline(o) THEN <<>> ELSE IF MultiPeriod(o) THEN [ct \in Cts |-> MultiTL(ct)] ELSE [ct \in Cts |-> <<TL(ct)>>]]

Derive(oo, cc, tt) == \* what follows from the stream and the clock
  /\ E' = Eff(oo, cc, tt[1])
  /\ ServedNow' = ServedSet(oo, cc, E', tt)
  /\ M' = ManifestAt(oo, cc, E', tt[1])
Init == /\ c \in Contents /\ o \in Streams(c)
        /\ t = <<T0, 0>> /\ seen = <<>>
        /\ E = Eff(o, c, T0) /\ ServedNow = ServedSet(o, c, E, t) /\ M = ManifestAt(o, c, E, T0)
Tick == /\ t[1] < T0 + Horizon
        /\ t' = TAddMs(t, StepMs)
        /\ Derive(o, c, t')
        /\ UNCHANGED <<c, o, seen>>
\* the client refreshes its manifest (remembering only the latest one)
Fetch == /\ (IF seen = <<>> THEN TRUE ELSE seen[1].at # t)
         /\ seen' = <<View>>
         /\ UNCHANGED <<c, o, t, E, ServedNow, M>>
Next == Tick \/ Fetch
Spec == Init /\ [][Next]_vars
\* groups whose properties need no client memory
NextTick == Tick
SpecTick == Init /\ [][NextTick]_vars

----------------------------------------------------------------------------
\* C01: at any moment the served numbers are consecutive
Contiguous == \A a, b \in ServedNow : \A n \in a..b : n \in ServedNow
\* C01: a segment never comes back after its window, and its window opens once
Once == [][ (E.ast = E'.ast /\ E.first = E'.first) => \A n \in Nums :
             /\ (n \in ServedNow /\ n \notin ServedNow') => "late" \in RefusalsE(o, c, E', t', n)
             /\ (n \notin ServedNow /\ n \in ServedNow') => "late" \notin RefusalsE(o, c, E, t, n) ]_t
\* C01: exact bounds for unlimited streams
ExactWindow == (E.aet = NONE /\ E.stop = NONE /\ o.ato # Inf) =>
   \A n \in Nums : n \in ServedNow <=>
      /\ n >= E.first
      /\ TLeq(Sec((n - E.first + 1) * c.D + E.ast), TAddMs(t, o.ato))
      /\ TLeq(t, Sec((n - E.first + 2) * c.D + E.ast + E.tsbd))
\* C01: before the first segment is complete nothing is served; an infinite offset only waits for the start
FirstWait == TLess(t, Sec(E.ast)) /\ o.ato \in {0, Inf} => ServedNow = {}

\* C02: seamless, and number <-> time is one to one
Seam == \A n \in {x \in ServedNow : x + 1 \in Nums} : \A ct \in Cts :
   LET k == LoopPos(o, c, E, n) IN
   /\ k >= 0
   /\ LoopPos(o, c, E, n + 1) = k + 1
   /\ DecodeTime(c, ct, k + 1) = MTAdd(DecodeTime(c, ct, k), SegTicks(c, ct, k), c.media[ct].ts)
   /\ VodNr(c, k) \in c.first..(c.first + c.n - 1)
   /\ VodNr(c, k + 1) = (IF VodNr(c, k) = c.first + c.n - 1 THEN c.first ELSE VodNr(c, k) + 1)
ByTime == \A n \in ServedNow : \A ct \in Cts :
   NumberOfTime(o, c, E, DecodeTime(c, ct, LoopPos(o, c, E, n)), c.media[ct].ts) = n

\* C04: what a client computes is what is served
ClientSet(p) ==
  LET pp == [start |-> p.start, snr |-> p.snr, pto |-> p.pto, D |-> c.D]
      hi == Min2(ClientNewest(M.ast, pp, o.ato, t), IF M.mpdur = NONE THEN 99999 ELSE p.snr + ((M.mpdur - p.start) \div c.D) - 1)
      lo == IF M.tsbd = NONE THEN p.snr ELSE ClientOldest(M.ast, pp, M.tsbd, t)
  IN {n \in Nums : lo <= n /\ n <= hi}
ClientServed == (o.ato # Inf /\ TLeq(Sec(E.ast), t)) => \A j \in DOMAIN M.periods : \A n \in ClientSet(M.periods[j]) :
   (n \in Nums /\ (M.mpdur = NONE \/ E.stop # NONE \/ n > ClientNewest(M.ast, [start |-> 0, snr |-> E.first, pto |-> 0, D |-> c.D], o.ato, t) - 2)) => n \in ServedNow
ClientRefused == (o.ato # Inf) => \A n \in Nums :
   n > ClientNewest(M.ast, [start |-> 0, snr |-> E.first, pto |-> E.pto, D |-> c.D], o.ato, t) => n \notin ServedNow
ClientTime == \A j \in DOMAIN M.periods : \A n \in {x \in ServedNow : x >= M.periods[j].snr} :
   LET p == M.periods[j] IN
   DecodeTime(c, "video", LoopPos(o, c, E, n)) = <<ClientMediaTime([start |-> p.start, snr |-> p.snr, pto |-> p.pto, D |-> c.D], n), 0>>

\* C05: listed entries are exactly the completed segments of the window, in order and without gap
Listed(ct) == TL(ct).entries
Gapless(es, ts) == \A j \in 1..(Len(es) - 1) : MTAdd(<<es[j][1], es[j][2]>>, es[j][3], ts) = <<es[j + 1][1], es[j + 1][2]>>
TimelineExact == \A ct \in Cts :
   LET T == TL(ct) IN
   /\ Gapless(T.entries, c.media[ct].ts)
   \* every listed segment is complete; the next one is not (or beyond the end)
   /\ \A j \in DOMAIN T.entries : LET x == T.entries[j] IN
        MTLeq(MTAdd(<<x[1], x[2]>>, x[3], c.media[ct].ts), <<t[1] - E.ast + E.pto, 0>>)
   /\ (T.entries # <<>> /\ E.stop = NONE) =>
        LET x == T.entries[Len(T.entries)]
            k == (T.snr - E.first + (E.pto \div c.D)) + Len(T.entries)
            y == MTAdd(DecodeTime(c, ct, k), SegTicks(c, ct, k), c.media[ct].ts)
        IN MTLess(<<t[1] - E.ast + E.pto, 0>>, y)
   \* the first listed segment covers the start of the window, unless the session begins just behind it
   /\ (T.entries # <<>> /\ E.stop = NONE) =>
        LET w == Window(o, c, E, t[1], 0, NONE) IN (MTLeq(<<T.entries[1][1], T.entries[1][2]>>, <<w.from, 0>>)
                             \/ (T.snr = E.first /\ MTLeq(<<T.entries[1][1], T.entries[1][2]>>, <<w.from + c.D \div 2, 0>>)))
                           /\ MTLess(<<w.from, 0>>, MTAdd(<<T.entries[1][1], T.entries[1][2]>>, T.entries[1][3], c.media[ct].ts))
\* C05: listed segments are served right now
TimelineServed == \A ct \in Cts : LET T == TL(ct) IN \A j \in DOMAIN T.entries :
   T.snr + j - 1 \in ServedNow \/ T.snr + j - 1 \notin Nums \/ (E.aet # NONE /\ t[1] > E.aet + 60)

\* C06 / C07: what the client saw before and what it would see now
Forward(x, y, ts) ==      \* timelines move forward only
  (x.entries # <<>> /\ y.entries # <<>>) =>
    LET at == {j \in DOMAIN x.entries : x.entries[j] = y.entries[1]} IN
    IF at # {} THEN LET d == CHOOSE j \in at : TRUE IN
         /\ \A j \in d..Len(x.entries) : j - d + 1 \in DOMAIN y.entries /\ y.entries[j - d + 1] = x.entries[j]
         /\ y.snr = x.snr + d - 1
    ELSE LET l == x.entries[Len(x.entries)] IN MTLeq(MTAdd(<<l[1], l[2]>>, l[3], ts), <<y.entries[1][1], y.entries[1][2]>>)
ForwardOnly == (seen # <<>> /\ HasTimeline(o) /\ ~MultiPeriod(o) /\ seen[1].mpd.ast = M.ast) =>
   \A ct \in Cts : Forward(seen[1].tl[ct][1], TL(ct), c.media[ct].ts)

\* C07: periods tile the window
L == PeriodLen(o)
Tiling == MultiPeriod(o) /\ t[1] >= E.ast =>
   LET P == M.periods
       from == Max2(0, t[1] - E.ast - E.tsbd - c.D) IN
   /\ \A j \in DOMAIN P : P[j].start = P[j].nr * L
        /\ P[j].pto = E.pto + P[j].start /\ P[j].snr = E.first + P[j].start \div c.D
   /\ \A j \in 1..(Len(P) - 1) : P[j + 1].nr = P[j].nr + 1
   /\ P[1].start <= from /\ from < P[1].start + L
   /\ P[Len(P)].start <= t[1] - E.ast + L \div 2 /\ t[1] - E.ast + L \div 2 < P[Len(P)].start + L
   /\ \A j \in DOMAIN P : P[j].dur # NONE => P[j].dur <= L
PeriodStable == (seen # <<>> /\ MultiPeriod(o)) =>
   \A x \in Range(seen[1].mpd.periods), y \in Range(M.periods) :
      x.nr = y.nr => x.start = y.start /\ x.snr = y.snr /\ x.pto = y.pto
PeriodSeam == (MultiPeriod(o) /\ HasTimeline(o) /\ o.etp <= 0) => \A ct \in Cts :
   LET x == MultiTL(ct)
       all == [i \in 1..Len(x) |-> x[i].entries] IN
   /\ \A i \in 1..(Len(x) - 1) : (all[i] # <<>> /\ all[i + 1] # <<>>) =>
         LET l == all[i][Len(all[i])] IN MTAdd(<<l[1], l[2]>>, l[3], c.media[ct].ts) = <<all[i + 1][1][1], all[i + 1][1][2]>>
   /\ \A i \in DOMAIN all : Gapless(all[i], c.media[ct].ts)
Rates == (MultiPeriod(o) /\ t = <<T0, 0>>) =>
   \A r \in {o.xlink, o.etp, o.mpdcallback} : r > 0 => Cardinality({nr \in 0..(o.periods - 1) : Selected(o, r, nr)}) = r

\* C09: ends
Forwards == [][ (Len(o.durs) > 0) =>
     LET e1 == E
         e2 == E' IN e1.aet <= e2.aet /\ e1.mpdur <= e2.mpdur /\ e1.last = e2.last /\ e1.ast = e2.ast ]_t
KnownEnd == (Len(o.durs) > 0) =>
   /\ (t[1] > E.aet - 2 * E.mup => E.aet = DurEnds(o, c, o.start)[Len(o.durs)])
   /\ E.last = E.first + (DurEnds(o, c, o.start)[Len(o.durs)] - E.ast) \div c.D - 1
   /\ \A n \in ServedNow : n <= E.last /\ (IsLast(E, n) <=> n = E.last) /\ t[1] <= E.aet + 60
StaticEnd == (E.stop # NONE) =>
   /\ M.static = (t[1] > E.stop)
   /\ M.mpdur = E.stop - E.ast
   /\ \A n \in ServedNow : SegEnd(E, c, n) <= E.stop
   /\ (t[1] >= E.stop /\ t[1] >= E.ast + c.D => \A n \in Nums : (n >= E.first /\ SegEnd(E, c, n) <= E.stop) => n \in ServedNow)

\* C10: the pinned stream describes the same session, then and later
Pinned == [o EXCEPT !.start = IF o.startrel # NONE THEN E.ast ELSE o.start, !.startrel = NONE,
                    !.stop = IF o.stoprel # NONE /\ E.stop # NONE THEN E.stop ELSE NONE, !.stoprel = NONE]
Pins == (AddLocation(o)) =>
   /\ ~AddLocation(Pinned)
   /\ \A d \in {0, 1, 5, 30} : LET e2 == Eff(Pinned, c, t[1] + d) IN
        /\ e2.ast = E.ast /\ e2.stop = E.stop /\ e2.tsbd = E.tsbd /\ e2.mpdur = E.mpdur /\ e2.first = E.first /\ e2.stopnr = E.stopnr
        /\ \A n \in Nums : LoopPos(Pinned, c, e2, n) = LoopPos(o, c, E, n)

\* C11: phases
Phases == (o.modulo # 0) =>
   LET m == 60 * o.modulo
       b == Quant(t[1], m)
       p10 == (t[1] - b) * 10 IN
   /\ E.ast = (IF p10 < 9 * m THEN b ELSE b + m)
   /\ E.mpdur \in {(m * x) \div 5 : x \in 1..4}
   /\ E.aet = E.ast + E.mpdur + m \div 20
   /\ (p10 < 9 * m => E.ast + E.mpdur > t[1] + m \div 20 \/ E.mpdur = (4 * m) \div 5)
   /\ E.last = E.first + E.mpdur \div c.D - 1
   /\ \A n \in ServedNow : n <= E.last
PhaseForward == [][ (o.modulo # 0) =>
     LET e1 == E
         e2 == E' IN e1.ast <= e2.ast /\ (e1.ast = e2.ast => e1.aet <= e2.aet /\ e1.mpdur <= e2.mpdur) ]_t

\* C13 / C14: outages
B == o.baseurl[1]
Outages == Len(o.baseurl) = 1 =>
   /\ (LastUp(B, t[1]) => ~Down(B, t[1]) /\ (t[1] % 60 # 59 => Down(B, t[1] + 1)))
   /\ (B.first = "u" /\ t[1] % 60 # 59 /\ ~Down(B, t[1]) /\ Down(B, t[1] + 1) => LastUp(B, t[1]))
   /\ (LossOn(o) /\ Frozen(o, t[1]) =>
         LET u == MpdTime(o, t[1]) IN
         /\ u < t[1] /\ LastUp(B, u) /\ ~Down(B, u)
         /\ \A x \in (u + 1)..t[1] : Down(B, x))
   /\ (LossOn(o) /\ ~Frozen(o, t[1]) => MpdTime(o, t[1]) = t[1])
   /\ Cardinality({m \in 0..59 : Down(B, m)}) + Cardinality({m \in 0..59 : ~Down(B, m)}) = 60
   /\ (60 % (B.a + B.b) = 0 => Cardinality({m \in 0..59 : Down(B, m)}) \in {(60 \div (B.a + B.b)) * (IF B.first = "u" THEN B.b ELSE B.a),
                                                                             (60 \div (B.a + B.b)) * (IF B.first = "u" THEN B.b ELSE B.a) - 1})
\* the manifest at down times is the one of the last up second
FrozenView == (LossOn(o) /\ Frozen(o, t[1])) =>
   LET u == MpdTime(o, t[1]) IN \A ct \in Cts :
     TimelineOf(o, c, Eff(o, c, t[1]), u, 0, NONE, ct) = TimelineOf(o, c, Eff(o, c, u), u, 0, NONE, ct)

\* C15: splices
N0 == t[1] \div c.D
Sp == SpliceOf(o.scte35, N0 * c.D, c.D)
SpliceWellTimed == Sp >= 0 =>
   /\ Sp % 60 \in Range(Schedule(o.scte35))
   /\ Sp - N0 * c.D >= 6 /\ Sp - N0 * c.D <= c.D + 8
\* every scheduled splice is announced by at least one segment, all its announcers are consecutive
AllSplices == (o.scte35 > 0 /\ c.D <= 10) => \A j \in DOMAIN Schedule(o.scte35) :
   LET T == 60 * (t[1] \div 60) + Schedule(o.scte35)[j]
       who == {n \in ((T - 8) \div c.D - 2)..(T \div c.D) : n >= 0 /\ SpliceOf(o.scte35, n * c.D, c.D) = T}
   IN who # {} /\ \A a, b \in who : \A n \in a..b : n \in who
SpliceIds == \A i, j \in DOMAIN Schedule(o.scte35) : i # j => Schedule(o.scte35)[i] \div 10 # Schedule(o.scte35)[j] \div 10
SpliceClock == /\ (t[1] < 90000 => Pts16(t[1]) = (t[1] * 5625) % 536870912)
               /\ Pts16(t[1] + 1) = (Pts16(t[1]) + 5625) % 536870912
               /\ \A h \in {1000, 30000, 60000} : Pts16(t[1] + h * 32768) = (Pts16(t[1]) + Pts16(h * 32768)) % 536870912

\* C28: restarts
Restarts ==
   /\ o.tfdt # 0 => /\ E.ast % 10800 = 0 /\ E.ast <= t[1] /\ t[1] < E.ast + 10800
                    /\ E.mpdur = 10800 /\ E.aet = E.ast + 10800 /\ E.mup = 5400
                    /\ \A n \in ServedNow : DecodeTime(c, "video", LoopPos(o, c, E, n))[1] <= 10800 + c.D
   /\ o.cont # 0 => /\ E.ast % c.D = 0 /\ t[1] - 2 * c.D < E.ast /\ E.ast <= t[1] - c.D
                    /\ E.mpdur = 10800 /\ E.aet = E.ast + 10800
RestartForward == [][ E.ast <= E'.ast ]_t
=============================================================================
