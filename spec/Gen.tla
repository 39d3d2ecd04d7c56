-------------------------------- MODULE Gen --------------------------------
(* Behaviour generator: random walks of a client against the specified      *)
(* system. A behaviour is a content, a stream (URL options) and a sequence  *)
(* of requests at increasing instants, directed to the boundaries that the  *)
(* specification knows (availability edges, ends, phases, period starts).   *)
(* Run with -simulate; every finished behaviour is printed as JSON and then *)
(* replayed against the real server.                                        *)
EXTENDS Outage, Splice, Json, IOUtils, SequencesExt

In == JsonDeserialize(IOEnv.GEN)   \* [contents, always, maybe, kinds, depth, names]
Contents == In.contents
VARIABLES ph, c, fl, o, t, acts
vars == <<ph, c, fl, o, t, acts>>

Pick(S) == RandomElement(S)
Always == Range(In.always)
Maybe == Range(In.maybe)
On(x) == x \in Always \/ (x \in Maybe /\ Pick(1..In.odds) = 1)
Kinds == In.kinds                 \* sequence: repetitions are weights
PickSeq(s) == s[Pick(1..Len(s))]

Divisors(P) == {x \in 1..60 : P % x = 0}

Flags(z) == [start |-> On("start"), stop |-> On("stop"), durs |-> On("durs"), rel |-> On("rel"), off |-> On("off"),
  snr |-> On("snr"), tsbd |-> On("tsbd"), ato |-> On("ato"), atoinf |-> On("atoinf"), init |-> On("init"), tl |-> On("tl"), tlnr |-> On("tlnr"),
  periods |-> On("periods"), oneoff |-> On("oneoff"), xlink |-> On("xlink"), ad |-> On("ad"), etp |-> On("etp"), cb |-> On("cb"), contin |-> On("contin"),
  peroff |-> On("peroff"), base |-> On("base"), bases |-> On("bases"), loss |-> On("loss"), scte |-> On("scte"), utc |-> On("utc"),
  spd |-> On("spd"), sidx |-> On("sidx"), chunk |-> On("chunk"), mod |-> On("mod"), tfdt |-> On("tfdt"),
  cont |-> On("cont"), mup |-> On("mup"), epoch |-> On("epoch"), zero |-> On("zero"), wide |-> On("wide"), long |-> On("long")]

\* consistent combinations only (inconsistent ones are generated by the refusal scenarios)
Clean(f) ==
  LET special == f.mod \/ f.tfdt \/ f.cont
      st == (f.start \/ f.stop \/ f.durs \/ f.rel \/ f.off) /\ ~special
  IN [f EXCEPT !.start = st, !.stop = f.stop /\ st /\ ~f.durs, !.durs = f.durs /\ st, !.rel = f.rel /\ st,
        !.off = f.off /\ st, !.tfdt = f.tfdt /\ ~f.mod, !.cont = f.cont /\ ~f.mod /\ ~f.tfdt,
        !.xlink = f.xlink /\ f.periods, !.ad = f.ad /\ f.xlink /\ f.periods, !.etp = f.etp /\ f.periods, !.cb = f.cb /\ f.periods,
        !.oneoff = f.oneoff /\ ~f.periods,
        !.tl = f.tl /\ ~f.tlnr, !.base = f.base \/ f.loss, !.bases = f.bases /\ ~f.loss, !.atoinf = f.atoinf,
        !.mup = f.mup]

\* where the decode times of some media pass 2^31, 2^32 and 2^33 (field widths of the formats)
TwoTo30 == 1073741824
WideSecs(ts, k) == k * (TwoTo30 \div ts) + (k * (TwoTo30 % ts)) \div ts
WideEpochs(cc) == {x \in {WideSecs(cc.media[ct].ts, k) + j * cc.D : ct \in {z \in Range(cc.cts) : cc.media[z].ts > 100}, k \in {2, 4, 8}, j \in {-4, -2, -1, 0, 1}} : x > 0 /\ x < 1900000000}
Epochs(f, cc) == LET D == cc.D IN IF f.wide THEN WideEpochs(cc) ELSE IF f.zero THEN {0, 1, D, 3 * D + 1} ELSE IF f.epoch
  THEN {1000000007, 1234567890, 1700000000, 1735689599, 1900000000} ELSE {7, 100, 599, 3601, 7195, 21600, 86399, 1000003}

Sched == {[first |-> x[1], a |-> x[2], b |-> x[3]] :
            x \in {<<"u", 10, 10>>, <<"u", 20, 10>>, <<"u", 7, 8>>, <<"u", 40, 20>>, <<"u", 25, 20>>, <<"d", 10, 20>>, <<"d", 5, 10>>, <<"d", 7, 9>>, <<"u", 59, 1>>, <<"u", 57, 3>>, <<"u", 27, 2>>, <<"u", 14, 1>>}}
RateSet(P) == {x \in Divisors(P) : P % x = 0}

\* period rates whose period length is a multiple of the segment duration
PRates(D) == {P \in {1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60} : (3600 \div P) % D = 0 /\ 3600 \div P > D}

Options(f, cc, t0) ==
  LET D == cc.D
      P == IF f.periods THEN Pick(PRates(D)) ELSE -1
      \* long: sessions, windows and offsets of hours and days (minutes where all segments are listed)
      LL == IF ~f.long THEN 0 ELSE IF (f.tl \/ f.tlnr) /\ D < 4 THEN Pick({150, 301}) ELSE IF f.tl \/ f.tlnr THEN IF D < 8 THEN Pick({300, 601}) ELSE Pick({600, 3603}) ELSE IF f.periods THEN Pick({x \in {3599, 3600, 3605, 7201, 86400} : (x * P) \div 3600 <= 150}) ELSE Pick({3599, 3600, 3605, 7201, 86400, 90013, 604800})
      L == IF LL < t0 THEN LL ELSE t0
      s0 == t0 + (IF f.long THEN Pick({-L, -L + 1, -L - 7, -L + 5 * D, -(L \div 2), -L - 61, -1}) ELSE Pick({-61, -37, -20, -11, -6, -2 * D, -D, -1, 0, 1, 3, D, 17}))
      ast0 == Quant(s0, D)
      st == IF s0 < 0 THEN 0 ELSE s0
      sr == IF f.long THEN Pick({-L, -L - 1, -(L \div 2)}) ELSE Pick({x \in {-61, -31, -2 * D, -7, -1, 0, 2} : t0 + x >= 0})   \* nothing before 1970
  IN [start |-> IF f.start /\ ~f.rel THEN st ELSE NONE,
      stop |-> IF f.stop /\ ~f.rel THEN st + L + D + Pick({0, 1, D, 2 * D + 1, 20, 61}) ELSE NONE,
      startrel |-> IF f.rel THEN sr ELSE NONE,
      stoprel |-> IF f.rel /\ ~f.durs /\ Pick(1..3) > 1 THEN D + (IF Pick(1..3) = 1 THEN sr + (IF f.long THEN Pick({0, L \div 2, L \div 4}) ELSE Pick({0, 1, D, 2 * D + 5})) ELSE IF f.long THEN Pick({0, L, 3 * L}) ELSE Pick({3, 11, 20})) ELSE NONE,
      durs |-> IF f.durs THEN IF f.long THEN LET x == D * (L \div D) IN Pick({<<x>>, <<x, x>>, <<D, 2 * x>>, <<x, D, 4 * D>>}) ELSE IF f.rel THEN <<D * Pick({5, 10})>> ELSE
                 Pick({<<30>>, <<D * 7>>, <<12, 25>>, <<2 * D, 4 * D, 3 * D>>, <<40, 40>>, <<20, 15, 33>>}) ELSE <<>>,
      timeoffset |-> IF f.off /\ ~f.rel THEN LET y == Quant(st, D) - Pick({0, 1, 3, 7, cc.n, 2 * cc.n + 1}) * D IN IF Pick(1..3) = 1 \/ y < 0 THEN 0 ELSE y ELSE NONE,
      init |-> IF f.init THEN IF f.long THEN Pick({3600, 100000}) ELSE Pick({0, 1, 5, 30}) ELSE 0,
      tsbd |-> IF f.tsbd THEN IF f.long THEN Pick({L, L + 1}) ELSE Pick({0, 1, D, 7, 3 * D, 30, 61}) ELSE NONE,
      mup |-> IF f.mup THEN Pick({0, 1, 2, 5, 30, 3600, 90061}) ELSE NONE,
      modulo |-> IF f.mod THEN Pick({1, 2, 5, 10, 15, 30}) ELSE 0, tfdt |-> IF f.tfdt THEN 1 ELSE 0, cont |-> IF f.cont THEN 1 ELSE 0,
      periods |-> IF f.periods THEN P ELSE IF f.oneoff THEN 0 ELSE -1,
      xlink |-> IF f.xlink THEN Pick(RateSet(P)) ELSE -1,
      etp |-> IF f.etp THEN Pick(RateSet(P)) ELSE -1,
      etpDuration |-> IF f.etp /\ Pick(1..2) = 1 THEN Pick({1, 3600 \div P, (3600 \div P) - 1, (3600 \div P) \div 3}) ELSE -1,
      insertad |-> IF f.ad THEN Pick(1..5) ELSE -1,
      mpdcallback |-> IF f.cb THEN Pick(RateSet(P)) ELSE -1,
      continuous |-> IF f.contin THEN 1 ELSE 0,
      segtimeline |-> IF f.tl THEN 1 ELSE 0, segtimelinenr |-> IF f.tlnr THEN 1 ELSE 0,
      baseurl |-> IF f.loss THEN <<Pick({x \in Sched : x.first = "u"})>>
                  ELSE IF f.base THEN <<Pick(Sched)>> ELSE IF f.bases THEN <<Pick(Sched), Pick(Sched), Pick(Sched)>> ELSE <<>>,
      peroff |-> IF f.peroff THEN Pick({0, 1}) ELSE -1,
      scte35 |-> IF f.scte THEN Pick({1, 2, 3}) ELSE 0,
      utc |-> IF f.utc THEN Pick({<<"direct">>, <<"head">>, <<"ntp", "sntp">>, <<"httpxsdate", "httpiso">>, <<"sntp", "head", "direct", "ntp">>, <<"ntp", "head", "ntp">>}) ELSE <<>>,
      snr |-> IF f.snr THEN IF f.off \/ f.periods THEN Pick({0, 1, 7, 1000}) ELSE Pick({-1, 0, 1, 7, 1000, 99999, 12345678}) ELSE 0,
      ato |-> IF f.atoinf THEN Inf ELSE IF f.ato THEN IF f.long THEN Pick({3 * D * 1000 + 10, 60000, 3600125, 10, 1}) ELSE Pick({500, 1000, 1750, (D - 1) * 1000 + 125, D * 1000 + 250}) ELSE 0,
      spd |-> IF f.spd THEN Pick({0, 10, 70, 3600, 86400, 90061}) ELSE NONE,
      sidx |-> IF f.sidx THEN 1 ELSE 0, segtimelineloss |-> IF f.loss THEN 1 ELSE 0,
      chunkdur |-> IF f.chunk THEN Pick({125, 250, 500, 1000, 750, 2000}) ELSE 0]

----------------------------------------------------------------------------
e0 == Eff(o, c, t[1])
Newest == e0.first + ((t[1] - e0.ast) \div c.D) - 1        \* last complete segment
AtoMs == IF o.ato = Inf THEN 0 ELSE o.ato
Oldest == Newest - (e0.tsbd \div c.D)

MinuteMarks == {60 * (t[1] \div 60) + x : x \in {0, 1, 5, 6, 7, 8, 10, 15, 20, 25, 30, 36, 40, 45, 46, 50, 58, 59, 60, 61}}
PeriodMarks == IF MultiPeriod(o)
  THEN LET L == PeriodLen(o)
           k == (t[1] - e0.ast) \div L
       IN {e0.ast + k * L + x : x \in {0, L \div 2, L, L + L \div 2}} \cup {e0.ast + k * L + x + e0.tsbd + c.D : x \in {0, L}}
  ELSE {}
EndMarks == (IF e0.aet # NONE THEN {e0.aet, e0.aet + 60, e0.aet + 61, e0.aet - 2 * Max2(e0.mup, 0), e0.aet - 2 * Max2(e0.mup, 0) + 1} ELSE {})
       \cup (IF e0.stop # NONE THEN {e0.stop, e0.stop + 1, e0.stop + 60} ELSE {})
       \cup (IF o.modulo # 0 THEN LET m == 60 * o.modulo IN {Quant(t[1], m) + (m * x) \div 10 : x \in {0, 1, 3, 5, 9, 10, 11}} ELSE {})
       \cup (IF o.tfdt # 0 THEN {Quant(t[1], 10800) + 10800} ELSE {})
SegMarks == LET n == Newest + 1 IN
  {TAddMs(Sec(SegEnd(e0, c, n + j)), -AtoMs) : j \in 0..1} \cup {Sec(SegEnd(e0, c, Oldest + j) + c.D + e0.tsbd) : j \in {-1, 0}}
  \cup {Sec(e0.ast), TAddMs(Sec(e0.ast + c.D), -AtoMs), Sec(e0.ast - o.init)}
Jitter == {-1000, -125, 0, 0, 125, 1000}
Ahead(S) == {x \in S : TLess(t, x)}
WideTicks == {125, 500, 1000, c.D * 1000, 3125, 7000, 20000}
Ticks == WideTicks \cup (IF MultiPeriod(o) THEN {PeriodLen(o) * 500, PeriodLen(o) * 1000} ELSE {})
Cap(S) == {x \in S : x[1] < 2000000000 /\ x[1] >= 0}

Advance(j) ==
  LET marks == IF j <= 3 THEN SegMarks ELSE IF j = 4 THEN {Sec(x) : x \in EndMarks} ELSE IF j = 5 THEN {Sec(x) : x \in PeriodMarks}
               ELSE IF j = 6 THEN {Sec(x) : x \in MinuteMarks} ELSE {}
      S == Cap(Ahead({TAddMs(x, Pick(Jitter)) : x \in marks}))
  IN IF S = {} THEN TAddMs(t, Pick(Ticks)) ELSE Pick(S)

Numbers == {Newest - 1, Newest, Newest + 1, Newest + 2, Oldest - 3, Oldest - 2, Oldest - 1, Oldest, Oldest + 1, e0.first - 1, e0.first}
           \cup (IF e0.last # NONE THEN {e0.last - 1, e0.last, e0.last + 1} ELSE {})
           \cup (IF e0.stopnr # NONE THEN {e0.stopnr - 1, e0.stopnr, e0.stopnr + 1} ELSE {})
Num == LET x == Pick(Numbers) IN IF x < 0 THEN 0 ELSE x
MT(n, ct) == LET k == LoopPos(o, c, e0, n) IN IF n < e0.first \/ k < 0 THEN <<0, 0>> ELSE DecodeTime(c, ct, k)

Request(kind, n, ct, r) ==
  [k |-> kind, t |-> t, n |-> n, ct |-> ct, r |-> r,
   mt |-> IF kind = "time" THEN MT(n, ct) ELSE <<0, 0>>]

----------------------------------------------------------------------------
\* Sweeps: instead of a random walk, all requests around the boundaries of one stream.
Act(kind, tt, n, ct, r) == [k |-> kind, t |-> tt, n |-> n, ct |-> ct, r |-> r, mt |-> IF kind = "time" THEN MT(n, ct) ELSE <<0, 0>>]
Pos(S) == {x \in S : x >= 0}
MediaCts == {x \in Range(c.mcts) : x \in Range(In.cts)}
Around(x) == {TAddMs(x, j) : j \in {-1000, -125, 0, 125, 1000}}
\* both edges of the availability window of interesting numbers, for every way to address them
WindowActs ==
  LET nums == Pos({e0.first - 1, e0.first, e0.first + 1, Newest - 1, Newest + 1}
              \cup (IF e0.last # NONE THEN {e0.last - 1, e0.last, e0.last + 1} ELSE {})
              \cup (IF e0.stopnr # NONE THEN {e0.stopnr - 1, e0.stopnr} ELSE {}))
      lo(n) == {TAddMs(Sec(SegEnd(e0, c, n)), -AtoMs), Sec(SegEnd(e0, c, n))}
      hi(n) == {Sec(SegEnd(e0, c, n) + c.D + e0.tsbd)} \cup (IF e0.aet # NONE THEN {Sec(e0.aet + 60), Sec(e0.aet + 61)} ELSE {})
               \cup (IF e0.stop # NONE THEN {Sec(e0.stop + 61 + e0.tsbd), Sec(e0.stop)} ELSE {})
      edges(n) == Cap(UNION {Around(x) : x \in lo(n) \cup hi(n) \cup {Sec(e0.ast), TAddMs(Sec(e0.ast + c.D), -AtoMs)}})
  IN UNION {{Act(kk, x, n, ct, 1 + (((n % 7) + (x[1] % 7)) % 7)) : x \in {y \in edges(n) : In.dense >= 10 \/ Pick(1..10) <= In.dense}, ct \in {CHOOSE z \in MediaCts : (n % Cardinality(MediaCts)) = Cardinality({w \in MediaCts : IndexOf(c.mcts, w) < IndexOf(c.mcts, z)})}, kk \in {PickSeq(Kinds)}} : n \in nums}
\* consecutive segments over more than one loop, in order, at the live edge
LoopActs ==
  UNION {LET n == Newest - 1 + i
             x == TAddMs(Sec(SegEnd(e0, c, n)), Max2(0, 500 - AtoMs))
         IN {Act(kk, x, n, ct, i) : ct \in MediaCts, kk \in {PickSeq(Kinds)}} : i \in {j \in 0..(Min2(2 * c.n, 14)) : Newest - 1 + j >= e0.first}}
\* manifests at consecutive instants
WalkActs == {Act(PickSeq(Kinds), TAddMs(t, i * In.step + Pick({0, 0, 125})), Newest, PickSeq(c.mcts), Pick(1..1000)) : i \in 0..(In.depth - 1)}
\* a whole minute (and a bit), second by second
MinuteActs == LET x == SelectSeq(Kinds, LAMBDA y : TRUE) IN
   UNION {{Act(x[j], <<60 * (t[1] \div 60) + i, IF j = 1 THEN 0 ELSE 500>>, e0.first + ((60 * (t[1] \div 60) + i - e0.ast) \div c.D) - 1, PickSeq(c.mcts), Pick(1..1000)) : j \in DOMAIN x} : i \in 0..In.depth}
\* the marks of the schedule: ends, phases, periods, starts
MarkActs ==
  LET m == UNION {Around(Sec(x)) : x \in EndMarks \cup PeriodMarks \cup {e0.ast, e0.ast - o.init, e0.ast + c.D}} IN
  UNION {{Act(PickSeq(Kinds), x, num, PickSeq(c.mcts), Pick(1..1000)) : num \in {Pick(Pos(Numbers \cup {e0.first + ((x[1] - e0.ast) \div c.D) - 1}))}} : x \in {y \in Cap(m) : In.dense >= 10 \/ Pick(1..10) <= In.dense}}
SweepSet == CASE In.sweep = "window" -> WindowActs [] In.sweep = "loop" -> LoopActs [] In.sweep = "walk" -> WalkActs
              [] In.sweep = "minute" -> MinuteActs [] In.sweep = "marks" -> MarkActs [] OTHER -> {}
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : TLess(a.t, b.t) \/ (a.t = b.t /\ (a.n < b.n \/ (a.n = b.n /\ (a.r < b.r)))))

Init == ph = 0 /\ c = <<>> /\ fl = <<>> /\ o = <<>> /\ t = <<0, 0>> /\ acts = <<>>
Next ==
  \/ /\ ph = 0 /\ ph' = 1
     /\ \E i \in {Pick(1..Len(Contents))} : c' = Contents[i]
     /\ \E f \in {Flags(ph)} : fl' = Clean(f)
     /\ UNCHANGED <<o, t, acts>>
  \/ /\ ph = 1 /\ ph' = 2
     /\ \E t0 \in {Pick(Epochs(fl, c))} :
          /\ \E oo \in {Options(fl, c, t0)} : o' = oo
          /\ t' = <<t0, Pick({0, 125, 500, 875})>>
     /\ UNCHANGED <<c, fl, acts>>
  \/ /\ ph = 2 /\ In.sweep # "" /\ ph' = 3
     /\ \E S \in {SweepSet} : acts' = Sorted(S)
     /\ PrintT("GEN " \o ToJson([c |-> c.name, o |-> o, a |-> acts']))
     /\ UNCHANGED <<c, fl, o, t>>
  \/ /\ ph = 2 /\ In.sweep = "" /\ Len(acts) < In.depth
     /\ \E kind \in {PickSeq(Kinds)} : \E ct \in {PickSeq(c.mcts)} : \E r \in {Pick(1..1000)} : \E n \in {Num} :
          acts' = Append(acts, Request(kind, n, ct, r))
     /\ \E move \in {Pick(1..10)} : \E j \in {Pick(1..7)} : t' = IF move <= In.move THEN Advance(j) ELSE t
     /\ UNCHANGED <<ph, c, fl, o>>
  \/ /\ ph = 2 /\ In.sweep = "" /\ Len(acts) = In.depth /\ ph' = 3
     /\ PrintT("GEN " \o ToJson([c |-> c.name, o |-> o, a |-> acts]))
     /\ UNCHANGED <<c, fl, o, t, acts>>
Spec == Init /\ [][Next]_vars
=============================================================================
