-------------------------------- MODULE Judge ------------------------------
(* Verdicts: the set of <<clause, holds>> for one observed event in its     *)
(* session. Every clause is named <property>.<aspect>.                      *)
(* c: content, s: session [c, opts, ev], v: the event.                      *)
EXTENDS Outage, Splice, Boxes, Range, Limit, Paths, Analyzer, Subgen, Captions

C(name, holds) == {<<name, holds>>}
When(cond, S) == IF cond THEN S ELSE {}
Tag(props, name, holds) == {<<p \o "." \o name, holds>> : p \in props}
DashEvent == "urn:mpeg:dash:event:2012"
ScteScheme == "urn:scte:scte35:2013:xml"

Limited(o) == Len(o.durs) > 0
\* properties whose subject is this kind of session
ModeTags(o) == (IF Limited(o) \/ HasStop(o) THEN {"C09"} ELSE {})
               \cup (IF o.modulo # 0 THEN {"C11"} ELSE {})
               \cup (IF o.tfdt # 0 \/ o.cont # 0 THEN {"C28"} ELSE {})
               \cup (IF AddLocation(o) THEN {"C10"} ELSE {})

\* relations to an earlier event of the session (metamorphic clauses): the same observable
Rel(s, v) == UNION {C(v.rel[r].p, CASE v.rel[r].what = "dig" -> v.dig = s.ev[v.rel[r].r].dig
                                   [] v.rel[r].what = "bdig" -> v.bdig = s.ev[v.rel[r].r].bdig
                                   [] v.rel[r].what = "st" -> v.st = s.ev[v.rel[r].r].st
                                   [] v.rel[r].what = "ndig" -> /\ v.st = s.ev[v.rel[r].r].st
                                                                /\ v.st = 200 => v.m.ok /\ s.ev[v.rel[r].r].m.ok
                                                                     /\ v.m.ndig = s.ev[v.rel[r].r].m.ndig
                                   [] OTHER -> FALSE) : r \in DOMAIN v.rel}

----------------------------------------------------------------------------
(* Media segments                                                           *)
SegNumber(o, c, e, v) == IF v.addr = "t" THEN NumberOfTime(o, c, e, v.mt, c.reps[v.reps[1]].ts) ELSE v.n

\* tfdt close to second w: exactly for regular content, else less than half a segment away
Near(tfdt, w, D, ts, regular) ==
  IF regular THEN tfdt = <<w, 0>>
  ELSE MTLess(tfdt, MTAdd(<<w, 0>>, (D * ts) \div 2, ts)) /\ MTLess(MTAdd(<<w, 0>>, -((D * ts) \div 2), ts), tfdt)

\* judged against an observed manifest m (event) and one of its templates: the DASH client
ViaNumber(o, c, v, mv, p, tpl) ==
  LET D == tpl.dur
      m == mv.m
      pp == [start |-> p.start, snr |-> tpl.snr, pto |-> tpl.pto[1], D |-> D]
      ato == IF Len(m.baseurls) > 0 /\ m.baseurls[1].ato # 0 THEN m.baseurls[1].ato ELSE tpl.ato
      newest == IF ato = Inf THEN v.n ELSE ClientNewest(m.ast, pp, ato, v.t)
      lastByDur == IF m.mpdur = NONE THEN v.n ELSE tpl.snr + ((m.mpdur - p.start) \div D) - 1
      oldest == IF m.tsbd = NONE THEN tpl.snr ELSE ClientOldest(m.ast, pp, m.tsbd + D, v.t)
      avail == (m.aet = NONE \/ v.t[1] <= m.aet + ExtraAfterEnd) /\ TLeq(Sec(m.ast), v.t) /\ v.n >= oldest /\ v.n >= tpl.snr /\ v.n <= Min2(newest, lastByDur)
      fresh == v.t[1] = mv.t[1] \/ m.mpdur = NONE
      tr == v.f.frags[1].tracks[1]
  IN When(m.ast >= 0 /\ D > 0 /\ p.start >= 0 /\ m.ast < 2000000000,
       When(avail /\ m.tsbd # NONE, C("C04.served", v.st = 200))
       \cup When(avail /\ m.tsbd = NONE /\ fresh /\ v.n > newest - (IF (IF o.tsbd = NONE THEN c.tsbd ELSE o.tsbd) >= c.D THEN 2 ELSE 1), C("C04.served", v.st = 200))
       \cup When(ato # Inf /\ (o.ato = 0 \/ ~AddLocation(o)) /\ v.n > newest, C("C04.refused", v.st = 404))
       \cup When(v.st = 200 /\ Shape(v.f, 1, 1),
             C("C04.decode", Near(tr.tfdt, ClientMediaTime(pp, v.n), D, c.reps[v.reps[1]].ts, v.regular))))

\* judged against the j-th entry of an observed timeline
ViaTimeline(v, mv, tpl, j) ==
  LET x == tpl.tl[j]
      tr == v.f.frags[1].tracks[1]
  IN When(mv.m.aet = NONE \/ v.t[1] <= mv.m.aet + ExtraAfterEnd, C("C05.served", v.st = 200))
     \cup When(v.st = 200, C("C05.decode", Shape(v.f, 1, 1) /\ tr.tfdt = <<x[1], x[2]>> /\ tr.dur = x[3]))

Via(s, c, v) ==
  LET mv == s.ev[v.via] IN
  When(mv.st = 200 /\ mv.m.ok /\ v.vp \in DOMAIN mv.m.periods,
    LET p == mv.m.periods[v.vp] IN
    When(v.va \in DOMAIN p.as /\ Len(p.as[v.va].tpl) = 1,
      LET tpl == p.as[v.va].tpl[1] IN
      IF v.vj > 0 THEN When(v.vj \in DOMAIN tpl.tl, ViaTimeline(v, mv, tpl, v.vj))
      ELSE ViaNumber(s.opts[v.oi], c, v, mv, p, tpl)))

ScteExpected(o, c, v, n) ==
  IF c.reps[v.reps[1]].ct = "video" /\ Len(v.reps) = 1 THEN SpliceOf(o.scte35, n * c.D, c.D) ELSE -1

ScteClauses(o, c, v, n) ==
  LET es == SelectSeq(v.f.emsg, LAMBDA x : x.scheme = ScteScheme)
      T == ScteExpected(o, c, v, n)
  IN C("C15.count", Len(es) = (IF T < 0 THEN 0 ELSE 1))
     \cup When(T >= 0 /\ Len(es) = 1, LET x == es[1] IN
          C("C15.time", x.ts = 90000 /\ x.delta = (T - n * c.D) * 90000)
          \cup C("C15.pts", x.pts16 = Pts16(T) /\ x.ptsr = 0)
          \cup C("C15.id", x.id = T \div 10 /\ x.sid = x.id)
          \cup C("C15.break", x.dur = BreakSecs * 90000 /\ x.brk = BreakSecs * 90000 /\ x.ret = "false")
          \cup C("C15.scheme", x.value = "999")
          \cup C("C15.place", \A f \in DOMAIN v.f.frags : x.at < v.f.frags[f].at))

SubClauses(c, v, st, n, k, tr) ==
  LET off == LoopOffset(c, k)
      x == v.ttml
      y == st.ttml
  IN C("C21.parse", x.ok)
     \cup When(x.ok,
          C("C21.count", Len(x.times) = Len(y.times) /\ Len(x.texts) = Len(y.texts) /\ Len(x.segs) = Len(y.segs))
          \cup When(Len(x.times) = Len(y.times),
               C("C21.times", \A j \in DOMAIN x.times : x.times[j][1] = y.times[j][1] + off)
               \cup C("C21.fraction", \A j \in DOMAIN x.times : x.times[j][2] = y.times[j][2]))
          \cup When(Len(x.texts) = Len(y.texts),
               C("C21.clock", \A j \in DOMAIN x.texts : x.texts[j][2] = y.texts[j][2] + off)
               \cup C("C21.lang", \A j \in DOMAIN x.texts : x.texts[j][1] = y.texts[j][1]))
          \cup C("C21.number", \A j \in DOMAIN x.segs : x.segs[j] = n)
          \cup C("C21.rest", x.rest = y.rest)
          \cup C("C21.size", Covered(v.f, 0) /\ tr.nsmp = 1 /\ Len(tr.smp) = 1 /\ tr.smp[1][2] = x.size))
     \cup C("C21.decode", tr.tfdt = DecodeTime(c, "subtitles", k) /\ tr.dur = st.dur)

\* one (non-multiplexed) segment in one fragment
WholeClauses(o, c, v, e, n, k) ==
  LET rid == v.reps[1]
      st == StoredSeg(c, rid, k)
      rp == c.reps[rid]
      sub == rp.ct = "subtitles"
  IN C("C03.shape", Shape(v.f, 1, 1))
     \cup When(Shape(v.f, 1, 1),
        LET fr == v.f.frags[1]
            tr == fr.tracks[1]
            dt == DecodeTime(c, rp.ct, k)
        IN C("C02.number", fr.seq = n)
           \cup C("C02.decode", tr.tfdt = dt)
           \cup When(v.addr = "t", C("C02.bytime", tr.tfdt = dt /\ fr.seq = n))
           \cup When((o.stop # NONE /\ o.timeoffset = NONE) \/ AddLocation(o), C("C10.media", tr.tfdt = dt))
           \cup When(~sub, C("C02.media", tr.pay = st.pay))
           \cup When(~sub, C("C03.samples", SameSamples(tr, st)))
           \cup C("C03.side", SameSide(tr, st) /\ tr.tid = rp.tid)
           \cup C("C03.offsets", Covered(v.f, st.spare))
           \cup C("C03.sidx", Len(v.f.sidx) = o.sidx)   \* an index exactly when asked for
           \cup When(Len(v.f.sidx) > 0, C("C03.index", IndexesOK(v.f, rp.ts)))
           \cup When(Len(v.f.brands) >= 2, C("C03.brands", NoLast(v.f.brands) = NoLast(st.brands)))
           \cup When(o.tfdt # 0 /\ st.tver = 0, C("C28.decode32", tr.tver = 0))
           \cup When(o.tfdt # 0, C("C28.decode", tr.tfdt = dt))
           \cup When(o.cont # 0, C("C28.decode", tr.tfdt = dt))
           \cup When(c.ana # "", C(c.ana \o ".decode", tr.tfdt = dt) \cup When(~sub, C(c.ana \o ".samples", SameSamples(tr, st))))
           \cup When(sub, SubClauses(c, v, st, n, k, tr)))

ChunkClauses(o, c, v, e, n, k) ==
  LET rid == v.reps[1]
      st == StoredSeg(c, rid, k)
      rp == c.reps[rid]
      d == (rp.ts \div 1000) * o.chunkdur + ((rp.ts % 1000) * o.chunkdur) \div 1000
      \* the chunk duration is truncated to whole ticks, one tick of which may get lost to the binary fraction
      good == v.f.ok /\ Len(v.f.frags) > 0
              /\ \A i \in DOMAIN v.f.frags : Len(v.f.frags[i].tracks) = 1 /\ Len(v.f.frags[i].tracks[1].smp) > 0
  IN C("C16.shape", good)
     \cup When(good,
          C("C16.samples", AllSamples(v.f) = st.smp)
          \cup C("C16.number", \A i \in DOMAIN v.f.frags : v.f.frags[i].seq = n /\ v.f.frags[i].tracks[1].tid = rp.tid)
          \cup C("C16.decode", Contiguous(v.f, DecodeTime(c, rp.ct, k), rp.ts))
          \cup C("C16.offsets", Covered(v.f, 0))
          \cup C("C16.cut", (JustReaching(v.f, d) /\ LastNotOver(v.f, d)) \/ (JustReaching(v.f, d - 1) /\ LastNotOver(v.f, d - 1)))
          \cup C("C16.pieces", Len(v.dt) = Len(v.f.frags))
          \cup When(Len(v.dt) = Len(v.f.frags),
               C("C16.notbefore", \A i \in DOMAIN v.dt : TLeq(Release(SegStart(e, c, n), i, o.chunkdur), v.dt[i]))
               \cup C("C16.nodelay", \A i \in DOMAIN v.dt :
                         v.dt[i] = TMax(v.t, Release(SegStart(e, c, n), i, o.chunkdur)))))

\* the repackaging tool: a stored segment (k-th of the loop) cut into chunks of v.d ticks
JudgeChop(c, v) ==
  LET st == StoredSeg(c, v.reps[1], v.k0)
      rp == c.reps[v.reps[1]]
      good == v.f.ok /\ Len(v.f.frags) > 0
              /\ \A i \in DOMAIN v.f.frags : Len(v.f.frags[i].tracks) = 1 /\ Len(v.f.frags[i].tracks[1].smp) > 0
  IN C("C16.tool", v.rc = 0 /\ good
       /\ AllSamples(v.f) = st.smp
       /\ (\A i \in DOMAIN v.f.frags : v.f.frags[i].seq = c.first + v.k0 /\ v.f.frags[i].tracks[1].tid = rp.tid)
       /\ Contiguous(v.f, DecodeTime(c, rp.ct, v.k0), rp.ts)
       /\ Covered(v.f, 0) /\ JustReaching(v.f, v.d) /\ LastNotOver(v.f, v.d))

MuxClauses(o, c, v, e, n, k) ==
  C("C17.shape", Shape(v.f, 1, 2))
  \cup When(Shape(v.f, 1, 2),
     LET fr == v.f.frags[1] IN
     C("C17.number", fr.seq = n)
     \cup C("C17.tracks", \A j \in 1..2 : fr.tracks[j].tid = c.reps[v.reps[j]].tid)
     \cup C("C17.decode", \A j \in 1..2 : fr.tracks[j].tfdt = DecodeTime(c, c.reps[v.reps[j]].ct, k))
     \cup C("C17.samples", \A j \in 1..2 : fr.tracks[j].smp = StoredSeg(c, v.reps[j], k).smp)
     \cup C("C17.offsets", Covered(v.f, StoredSeg(c, v.reps[1], k).spare + StoredSeg(c, v.reps[2], k).spare))
     \cup C("C17.single", \A j \in 1..2 : SameSide(fr.tracks[j], StoredSeg(c, v.reps[j], k))))

JudgeSeg(s, c, v) ==
  LET o == s.opts[v.oi]
      e == Eff(o, c, v.t[1])
      n == SegNumber(o, c, e, v)
      refs == RefusalsE(o, c, e, v.t, n)
      down == MediaDown(o, v.t[1])
      up == MediaLastUp(o, v.t[1])
      k == LoopPos(o, c, e, n)
      mux == Len(v.reps) = 2
      chunked == o.chunkdur > 0 /\ ~mux
      should == refs = {} /\ ~down
      tags == ModeTags(o) \cup (IF mux THEN {"C17"} ELSE {}) \cup (IF chunked THEN {"C16"} ELSE {}) \cup (IF c.ana # "" THEN {c.ana} ELSE {})
  IN IF BadOptions(o) THEN C("C23.refuse", v.st = 404 /\ v.cls # "empty")
     ELSE
     When(~Single(o), C("C01.window", (v.st = 200) = should) \cup Tag(tags, "window", (v.st = 200) = should)
        \cup C("C01.status", v.st \in {200, 404})
        \cup When(v.st = 404 /\ ~should, C("C01.side", v.cls \in refs)))
     \cup When(should /\ ~Single(o) /\ ~mux /\ ~chunked,
          Tag({"C02", "C03"} \cup (IF c.reps[v.reps[1]].ct = "subtitles" THEN {"C21"} ELSE {})
              \cup (IF o.scte35 > 0 /\ c.reps[v.reps[1]].ct = "video" THEN {"C15"} ELSE {}), "served", v.st = 200))
     \cup When(Single(o),
        When(down, C("C13.down", v.st = 404)
                   \cup When(v.st = 404, C("C13.text", v.cls \in refs \cup {"down"})))
        \cup When(~down, C("C13.up", (v.st = 200) = (refs = {}))
                   \cup When(v.st = 404 /\ refs # {}, C("C13.side", v.cls \in refs)))
        \cup When(v.st = 200,
             LET es == SelectSeq(v.f.emsg, LAMBDA x : x.scheme = DashEvent) IN
             C("C13.event", Len(es) = (IF up THEN 1 ELSE 0))
             \cup When(up /\ Len(es) = 1, C("C13.stamp", es[1].at_s = v.t[1])
                \cup C("C13.fields", es[1].value = "1" /\ es[1].ts > 0)
                \cup C("C13.place", \A f \in DOMAIN v.f.frags : es[1].at < v.f.frags[f].at))))
     \cup When(e.last # NONE /\ n > e.last, Tag(ModeTags(o), "beyond", v.st = 404))
     \cup When(e.aet # NONE /\ v.t[1] > e.aet + ExtraAfterEnd, Tag(ModeTags(o), "afterend", v.st = 404))
     \cup When(v.st = 200 /\ should,
        (IF chunked THEN ChunkClauses(o, c, v, e, n, k)
         ELSE IF mux THEN MuxClauses(o, c, v, e, n, k)
         ELSE WholeClauses(o, c, v, e, n, k))
        \cup When(v.f.ok /\ ~chunked, Tag({"C09"} \cup tags, "lastmark", v.f.lmsg = (IF IsLast(e, n) THEN 1 ELSE 0)))
        \cup When(v.f.ok /\ ~mux /\ ~chunked, ScteClauses(o, c, v, n)
              \cup When(~Single(o), C("C13.noevent", \A j \in DOMAIN v.f.emsg : v.f.emsg[j].scheme # DashEvent))))
     \cup When(v.via > 0 /\ ~down, Via(s, c, v))

----------------------------------------------------------------------------
(* Thumbnails and initialization segments                                   *)
JudgeThumb(s, c, v) ==
  LET o == s.opts[v.oi]
      e == Eff(o, c, v.t[1])
      n == SegNumber(o, c, e, v)
      refs == RefusalsE(o, c, e, v.t, n)
      k == LoopPos(o, c, e, n)
  IN When(~BadOptions(o),
       C("C26.window", (v.st = 200) = (refs = {}))
       \cup When(v.addr = "t", C("C26.bytime", (v.st = 200) = (refs = {})))
       \cup When(v.st = 404, C("C26.text", refs # {} /\ v.cls \in refs))
       \cup When(v.st = 200 /\ refs = {}, C("C26.image", v.bdig = StoredSeg(c, v.reps[1], k).pay)))

JudgeInit(s, c, v) ==
  LET o == s.opts[v.oi]
      e == Eff(o, c, v.t[1])
      should == v.t[1] >= e.ast - o.init
      mux == Len(v.reps) = 2
  IN When(~BadOptions(o),
       IF mux THEN
         C("C17.initwindow", (v.st = 200) = should)
         \cup When(v.st = 200, C("C17.inittracks", v.ini.ok /\ v.ini.trex = <<c.reps[v.reps[1]].tid, c.reps[v.reps[2]].tid>>)
              \cup C("C17.initsame", v.ini.parts))
       ELSE C("C12.window", (v.st = 200) = should)
         \cup When(v.st = 404, C("C12.text", v.cls = "early"))
         \cup When(v.st = 200, C("C12.size", v.ini.len = v.ini.storedlen)
              \cup C("C12.zero", v.ini.nonzero = 0) \cup C("C12.same", v.ini.changed = 0)))

----------------------------------------------------------------------------
(* Manifests                                                                *)
NumStr(x) == ToString(x)
\* absolute URL up to the content, without the given option parts
BaseParts(v, parts) == <<v.scheme, "", v.host>> \o parts
DropBase(v) == SelectSeq(SubSeq(v.path, 1, v.np - 1), LAMBDA x : x.key # "baseurl")
Txt(seq) == [j \in DOMAIN seq |-> seq[j].txt]
SchedTxt(b) == "baseurl_" \o b.first \o NumStr(b.a) \o "_" \o (IF b.first = "u" THEN "d" ELSE "u") \o NumStr(b.b)
BaseUrlsOf(o, v) ==
  LET content == v.path[v.np].txt IN
  IF Len(o.baseurl) > 0
  THEN [j \in DOMAIN o.baseurl |-> BaseParts(v, Txt(DropBase(v)) \o <<SchedTxt(o.baseurl[j]), content, "">>)]
  ELSE <<BaseParts(v, Txt(SubSeq(v.path, 1, v.np)) \o <<"">>)>>
LocationOf(o, v, e) ==
  BaseParts(v, [j \in DOMAIN v.path |->
     CASE v.path[j].key = "startrel" -> "start_" \o NumStr(e.ast)
       [] v.path[j].key = "stoprel" -> IF e.stop # NONE THEN "stop_" \o NumStr(e.stop) ELSE v.path[j].txt
       [] OTHER -> v.path[j].txt])

UtcScheme(x) == CASE x = "direct" -> "urn:mpeg:dash:utc:direct:2014" [] x = "head" -> "urn:mpeg:dash:utc:http-head:2014"
                  [] x = "ntp" -> "urn:mpeg:dash:utc:ntp:2014" [] x = "sntp" -> "urn:mpeg:dash:utc:sntp:2014"
                  [] x = "httpxsdate" -> "urn:mpeg:dash:utc:http-xsdate:2014"
                  [] x = "httpiso" -> "urn:mpeg:dash:utc:http-iso:2014" [] OTHER -> "?"
LowLatency(o) == o.chunkdur > 0
UtcOf(o) == IF LowLatency(o) /\ o.utc = <<>> THEN <<"httpiso">> ELSE o.utc

LowLatencyProfile == "http://www.dashif.org/guidelines/low-latency-live-v5"
SpliceProfile == "http://dashif.org/guidelines/adin/app"
ProfilesOf(o, c) ==
  LET p0 == IF o.segtimelineloss = 1 THEN c.mpd.profilesMain ELSE c.mpd.profiles
      p1 == IF o.scte35 > 0 /\ ~Has(p0, SpliceProfile) THEN Append(p0, SpliceProfile) ELSE p0
  IN IF LowLatency(o) /\ ~Has(p1, LowLatencyProfile) THEN Append(p1, LowLatencyProfile) ELSE p1

ChildRank == [ProgramInformation |-> 1, BaseURL |-> 2, Location |-> 3, ServiceDescription |-> 4, Period |-> 5,
              Metrics |-> 6, EssentialProperty |-> 7, SupplementalProperty |-> 8, UTCTiming |-> 9]
\* (the same inside periods and adaptation sets)
PeriodRank == [BaseURL |-> 1, SegmentBase |-> 2, SegmentList |-> 3, SegmentTemplate |-> 4, AssetIdentifier |-> 5, EventStream |-> 6, AdaptationSet |-> 7]
SetRank == [FramePacking |-> 1, AudioChannelConfiguration |-> 2, ContentProtection |-> 3, EssentialProperty |-> 4, SupplementalProperty |-> 5,
            InbandEventStream |-> 6, Label |-> 7, ProducerReferenceTime |-> 8, Accessibility |-> 9, Role |-> 10, BaseURL |-> 11, SegmentTemplate |-> 12, Representation |-> 13]
OrderedBy(rank, seq) == \A j \in 1..(Len(seq) - 1) :
   (seq[j] \in DOMAIN rank /\ seq[j + 1] \in DOMAIN rank) => rank[seq[j]] <= rank[seq[j + 1]]
Ordered(seq) == OrderedBy(ChildRank, seq)

\* which listed periods are remote, and which selected one stays in place (ad modes)
FirstSelected(o, P) == LET S == {j \in DOMAIN P : Selected(o, o.xlink, P[j].nr)} IN
                       IF S = {} THEN 0 ELSE CHOOSE j \in S : \A l \in S : j <= l
Remote(o, P, j) == o.xlink > 0 /\ Selected(o, o.xlink, P[j].nr) /\ ~(o.insertad > 0 /\ j = FirstSelected(o, P))
AdTarget(mode) == CASE mode \in {1, 5} -> "ad.php?id=6_ad" [] mode = 2 -> "ad.php?id=6_ad_twoperiods"
                    [] mode = 3 -> "ad.php?id=6_ad_twoperiods_withremote" [] mode = 4 -> "invalidurl.php" [] OTHER -> "?"

RemoteClauses(s, o, v, m, P, j) ==
  LET q == m.periods[j]
      plain == IF v.plain > 0 THEN s.ev[v.plain].m.periods ELSE <<>>
  IN IF Remote(o, P, j)
     THEN C("C08.remote", q.href # "" /\ q.actuate = "onLoad")
          \cup When(o.insertad <= 0, C("C08.own",
               q.hparts = (IF Len(m.baseurls) > 0 THEN SubSeq(m.baseurls[1].parts, 1, Len(m.baseurls[1].parts) - 1) ELSE <<>>)
                          \o <<v.path[Len(v.path)].txt \o "+p" \o NumStr(P[j].nr) \o ".period">>))
          \cup When(o.insertad > 0, C("C08.ad", Len(q.hparts) > 0 /\ q.hparts[Len(q.hparts)] = AdTarget(o.insertad)))
          \cup When(o.insertad <= 0 \/ o.insertad \in 1..4, C("C08.empty", q.nkids = 0))
          \cup When(o.insertad = 5 /\ j \in DOMAIN plain, C("C08.default", q.kdig = plain[j].kdig))
     ELSE C("C08.kept", q.href = "")
          \cup C("C08.asset", q.asset = (IF o.insertad > 0 THEN 1 ELSE 0))
          \cup When(o.insertad <= 0 /\ j \in DOMAIN plain, C("C08.unchanged", q.dig = plain[j].dig))
          \cup When(o.insertad > 0 /\ j < Len(P) /\ Selected(o, o.xlink, P[j + 1].nr), C("C08.duration", q.dur = PeriodLen(o)))
          \cup When(o.insertad > 0, C("C08.nodefault", q.dur = P[j].dur))

TimelineClauses(o, c, e, now, x, q, j, a) ==
  LET ct == q.as[a].ct
      tpl == q.as[a].tpl[1]
      T == TimelineOf(o, c, e, now, x.start, x.eff, ct)
  IN C("C05.form", tpl.ntl = 1 /\ tpl.tlok = 1 /\ tpl.ts = c.media[ct].ts /\ tpl.dur = NONE)
     \cup C("C05.addressing", IF o.segtimeline = 1 THEN tpl.byt = 1 ELSE tpl.bynr = 1 /\ tpl.byt = 0)
     \cup When(tpl.ntl = 1 /\ tpl.tlok = 1,
          C("C05.entries", tpl.tl = T.entries)
          \cup When(ModeTags(o) \cap {"C09"} # {}, C("C09.timeline", tpl.tl = T.entries))
          \cup When(MultiPeriod(o), C("C07.timeline", tpl.tl = T.entries))
          \cup When(c.ana # "", C(c.ana \o ".timeline", tpl.tl = T.entries))
          \cup When(o.segtimeline = 0, C("C05.number", tpl.snr = T.snr)))

PeriodClauses(o, c, e, now, x, q, j) ==
  When(~MultiPeriod(o), C("C22.period", q.start = x.start /\ q.nr = 0 /\ q.dur = NONE))
  \cup When(MultiPeriod(o),
        C("C07.id", q.nr = x.nr)
        \cup C("C07.start", q.start = x.start)
        \cup When(o.insertad <= 0, C("C07.duration", q.dur = x.dur))
        \cup C("C07.callback", (Len(SelectSeq(q.evs, LAMBDA y : y[1] = "urn:mpeg:dash:event:callback:2015")) = 1) = x.callback))
  \cup When(MultiPeriod(o) \/ o.continuous = 1, C("C07.continuity", \A a \in DOMAIN q.as : q.as[a].cont =
              (IF o.continuous = 1 /\ x.prev >= 0 THEN <<"p" \o NumStr(x.prev)>> ELSE <<>>)))
  \cup When(x.callback /\ MultiPeriod(o), C("C07.callbackurl", \E y \in Range(q.evs) :
              y[1] = "urn:mpeg:dash:event:callback:2015" /\ y[2] = "1" /\ y[3] # ""))
  \cup C("C22.sets", [a \in DOMAIN q.as |-> q.as[a].ct] = c.mpd.cts /\ \A a \in DOMAIN q.as : Len(q.as[a].tpl) = 1)
  \cup C("C22.inner", OrderedBy(PeriodRank, q.order) /\ \A a \in DOMAIN q.as : OrderedBy(SetRank, q.as[a].order))
  \cup When(o.peroff >= 0, C("C07.segbase", q.segbase = <<x.pto>> \/ (x.pto = 0 /\ q.segbase = <<>>)))
  \cup When(o.peroff < 0, C("C07.nosegbase", q.segbase = <<>>))
  \cup UNION {When(Len(q.as[a].tpl) = 1 /\ q.as[a].ct \in DOMAIN c.media,
        LET tpl == q.as[a].tpl[1] IN
        C(IF MultiPeriod(o) \/ o.periods = 0 THEN "C07.offset" ELSE "C22.offset",
          tpl.pto = IF o.peroff >= 0 THEN <<0, 0>> ELSE <<x.pto, 0>>)
        \cup When(~HasTimeline(o),
             C(IF MultiPeriod(o) \/ o.periods = 0 THEN "C07.number" ELSE "C22.number",
                  tpl.snr = x.snr /\ (tpl.snrattr = 0 => tpl.snr = 1))
             \cup C("C22.template", tpl.dur = c.D /\ tpl.ntl = 0))
        \cup When(HasTimeline(o) /\ q.as[a].ct # "image", TimelineClauses(o, c, e, now, x, q, j, a))
        \cup C("C22.lowlatency", q.as[a].prt = (IF LowLatency(o) THEN 1 ELSE 0)
               /\ tpl.atc = (IF LowLatency(o) THEN "false" ELSE "")
               /\ tpl.ato = (IF LowLatency(o) THEN o.ato ELSE 0))
        \cup C("C15.stream", Len(SelectSeq(q.as[a].inband, LAMBDA y : y[1] = ScteScheme)) =
               (IF o.scte35 > 0 /\ q.as[a].ct = "video" THEN 1 ELSE 0)))
      : a \in DOMAIN q.as}

\* timelines move forward only: prev and next manifests of the same stream at increasing times
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Expanded(m, a) == Cat([j \in DOMAIN m.periods |-> m.periods[j].as[a].tpl[1].tl])
WellFormedAS(m, a) == \A j \in DOMAIN m.periods : a \in DOMAIN m.periods[j].as /\ Len(m.periods[j].as[a].tpl) = 1
                          /\ m.periods[j].as[a].tpl[1].tlok = 1
ForwardClauses(o, c, e, w, m, a) ==    \* w: earlier manifest, m: later one
  LET x == Expanded(w, a)
      y == Expanded(m, a)
      ts == m.periods[1].as[a].tpl[1].ts
      \* index in x of the first entry of y
      at == IF y = <<>> \/ x = <<>> THEN {} ELSE {j \in DOMAIN x : <<x[j][1], x[j][2]>> = <<y[1][1], y[1][2]>>}
      endx == IF x = <<>> THEN <<0, 0>> ELSE MTAdd(<<x[Len(x)][1], x[Len(x)][2]>>, x[Len(x)][3], ts)
      snr == Len(w.periods) = 1 /\ Len(m.periods) = 1 /\ o.segtimelinenr = 1 /\ o.segtimeline = 0
      sx == w.periods[1].as[a].tpl[1].snr
      sy == m.periods[1].as[a].tpl[1].snr
  IN C("C06.gapless", \A j \in 1..(Len(y) - 1) : MTAdd(<<y[j][1], y[j][2]>>, y[j][3], ts) = <<y[j + 1][1], y[j + 1][2]>>)
     \cup When(x # <<>> /\ y # <<>>,
        IF at # {} THEN
          LET d == CHOOSE j \in at : \A l \in at : j <= l IN
          C("C06.stable", \A j \in d..Len(x) : j - d + 1 \in DOMAIN y /\ y[j - d + 1] = x[j])
          \cup When(snr, C("C06.number", sy = sx + d - 1))
        ELSE C("C06.forward", MTLeq(endx, <<y[1][1], y[1][2]>>))
             \cup When(snr /\ endx = <<y[1][1], y[1][2]>>, C("C06.number", sy = sx + Len(x))))
     \cup When(x # <<>> /\ y = <<>> /\ m.ast = w.ast /\ LastMediaEnd(o, c, e) = NONE /\ e.tsbd >= 2 * c.D, C("C06.kept", FALSE))

\* the same period in two manifests of one stream
StableClauses(w, m) ==
  UNION {UNION {When(w.periods[j].id = m.periods[l].id /\ w.periods[j].href = "" /\ m.periods[l].href = "",
      C("C07.stable", w.periods[j].start = m.periods[l].start
          /\ Len(w.periods[j].as) = Len(m.periods[l].as)
          /\ \A a \in DOMAIN w.periods[j].as :
               /\ Len(w.periods[j].as[a].tpl) = Len(m.periods[l].as[a].tpl)
               /\ \A b \in DOMAIN w.periods[j].as[a].tpl :
                    /\ w.periods[j].as[a].tpl[b].pto = m.periods[l].as[a].tpl[b].pto
                    /\ w.periods[j].as[a].tpl[b].ntl = 0 => w.periods[j].as[a].tpl[b].snr = m.periods[l].as[a].tpl[b].snr))
     : l \in DOMAIN m.periods} : j \in DOMAIN w.periods}

ModeClauses(o, m, M) ==
  Tag(ModeTags(o) \ {"C10"}, "start", m.ast = M.ast)
  \cup Tag(ModeTags(o) \ {"C10"}, "end", m.aet = M.aet)
  \cup Tag(ModeTags(o) \ {"C10"}, "duration", m.mpdur = M.mpdur)
  \cup Tag(ModeTags(o) \cap {"C09"}, "static", (m.type = "static") = M.static)
  \cup When(~MultiPeriod(o) /\ ~HasTimeline(o), Tag(ModeTags(o) \cap {"C11", "C28"}, "update", m.mup = M.mup))

JudgeMpd(s, c, v) ==
  LET o == s.opts[v.oi]
      now == v.t[1]
      e == Eff(o, c, now)
      mt == MpdTime(o, now)
      M == ManifestAt(o, c, e, mt)
      m == v.m
      P == M.periods
      refused == MpdRefused(o)
      w == IF v.prev > 0 THEN s.ev[v.prev].m ELSE m
  IN IF refused
     THEN Tag((IF BadRates(o) THEN {"C07"} ELSE {}) \cup (IF BadOptions(o) \/ BadUtc(o) THEN {"C23"} ELSE {}),
              "refuse", v.st = 404 /\ v.cls # "empty")
     ELSE
     Tag({"C22"} \cup (IF HasTimeline(o) THEN {"C05", "C06"} ELSE {}) \cup (IF Len(o.baseurl) > 0 THEN {"C13"} ELSE {}) \cup (IF o.scte35 > 0 THEN {"C15"} ELSE {}) \cup (IF MultiPeriod(o) THEN {"C07"} ELSE {})
         \cup (IF o.xlink > 0 THEN {"C08"} ELSE {}) \cup ModeTags(o) \cup (IF LossOn(o) THEN {"C14"} ELSE {}) \cup (IF c.ana # "" THEN {c.ana} ELSE {}),
         "manifest", v.st = 200 /\ m.ok)
     \cup When(v.st = 200 /\ m.ok,
        C("C22.type", m.type = (IF M.static THEN "static" ELSE "dynamic"))
        \cup C("C22.start", m.ast = M.ast)
        \cup C("C22.publish", m.pub = M.pub)
        \cup C("C22.update", m.mup = M.mup)
        \cup C("C22.depth", m.tsbd = M.tsbd)
        \cup C("C22.delay", m.spd = M.spd)
        \cup C("C22.duration", m.mpdur = M.mpdur /\ m.aet = M.aet)
        \cup C("C22.maxsegment", m.maxdur = M.maxdur)
        \cup C("C22.profiles", m.profiles = ProfilesOf(o, c))
        \cup When(o.scte35 > 0, C("C15.profile", Has(m.profiles, SpliceProfile)))
        \cup When(o.segtimelineloss = 1, C("C14.profile", m.profiles = ProfilesOf(o, c)))
        \cup C("C22.order", Ordered(m.order))
        \cup C("C22.clock", Len(m.utc) >= Len(UtcOf(o)) /\ \A j \in DOMAIN UtcOf(o) :
                m.utc[j][1] = UtcScheme(UtcOf(o)[j]) /\ m.utc[j][2] # ""
                /\ (UtcOf(o)[j] = "direct" => m.utc[j][3] = now)
                /\ (UtcOf(o)[j] = "head" => m.utc[j][2] = v.scheme \o "//" \o v.host \o "/dash/time.txt"))
        \cup C("C22.clocks", Len(m.utc) = Len(UtcOf(o)))
        \cup C("C22.latency", Len(m.sd) = (IF LowLatency(o) THEN 1 ELSE 0))
        \cup C("C22.preserved", Range(c.mpd.root) \subseteq Range(m.root))
        \cup ModeClauses(o, m, M)
        \* where to fetch
        \cup (IF AddLocation(o)
              THEN C("C10.location", m.locations = <<LocationOf(o, v, e)>>) \cup C("C10.nobase", m.baseurls = <<>>)
              ELSE C("C22.nolocation", m.locations = <<>>)
                   \cup C(IF Len(o.baseurl) > 0 THEN "C13.bases" ELSE "C22.base",
                          [j \in DOMAIN m.baseurls |-> m.baseurls[j].parts] = BaseUrlsOf(o, v))
                   \cup Tag({"C22"} \cup (IF Len(o.baseurl) > 0 THEN {"C13"} ELSE {}), "timeoffset", \A j \in DOMAIN m.baseurls :
                          m.baseurls[j].ato = (IF LowLatency(o) THEN 0 ELSE o.ato) /\ m.baseurls[j].atc = ""))
        \* periods
        \cup Tag({"C22"} \cup (IF MultiPeriod(o) THEN {"C07"} ELSE {}) \cup (IF o.xlink > 0 THEN {"C08"} ELSE {}),
                 "periods", Len(m.periods) = Len(P))
        \cup When(Len(m.periods) = Len(P),
             UNION {When(o.xlink > 0, RemoteClauses(s, o, v, m, P, j))
                    \cup When(~Remote(o, P, j), PeriodClauses(o, c, e, mt, P[j], m.periods[j], j)
                          \cup When(P[j].callback /\ MultiPeriod(o), C("C07.callbackaddr", \E y \in Range(m.periods[j].evs) :   \* the service beside the content
                                y = <<"urn:mpeg:dash:event:callback:2015", "1", v.scheme \o "//" \o v.host \o "/" \o v.path[1].txt \o "/mpdcallback/">>))
                         \cup C("C22.media", Range(c.mpd.facts) \subseteq Range(m.periods[j].facts))
                         \cup When(LossOn(o), C("C14.event", \A a \in DOMAIN m.periods[j].as :
                                Len(SelectSeq(m.periods[j].as[a].inband, LAMBDA y : y[1] = DashEvent)) =
                                   (IF MpdLastUp(o, now) THEN 1 ELSE 0)))
                         \cup When(~LossOn(o), C("C14.noevent", \A a \in DOMAIN m.periods[j].as :
                                Len(SelectSeq(m.periods[j].as[a].inband, LAMBDA y : y[1] = DashEvent)) = 0)))
                    : j \in DOMAIN P}
             \cup When(LossOn(o), C("C14.publish", m.pub = mt)
                  \cup When(HasTimeline(o) /\ ~MultiPeriod(o), C("C14.frozen", \A j \in DOMAIN P : \A a \in DOMAIN m.periods[j].as :
                       (Len(m.periods[j].as[a].tpl) = 1 /\ m.periods[j].as[a].ct \in {"video", "audio"}) =>
                          m.periods[j].as[a].tpl[1].tl = TimelineOf(o, c, e, mt, P[j].start, P[j].eff, m.periods[j].as[a].ct).entries))))
        \* history
        \cup When(v.prev > 0 /\ s.ev[v.prev].st = 200 /\ w.ok,
             When(m.ast = w.ast /\ HasTimeline(o) /\ o.etp <= 0 /\ o.xlink <= 0,
                  UNION {When(WellFormedAS(w, a) /\ WellFormedAS(m, a), ForwardClauses(o, c, e, w, m, a))
                         : a \in {b \in DOMAIN c.mpd.cts : c.mpd.cts[b] # "image"}})
             \cup When(MultiPeriod(o) /\ m.ast = w.ast, StableClauses(w, m))
             \cup When(Limited(o) /\ ~AddLocation(o), C("C09.forward", w.aet <= m.aet /\ w.mpdur <= m.mpdur))
             \cup When(o.modulo # 0, C("C11.forward", m.ast = w.ast => w.aet <= m.aet))
             \cup When(o.cont # 0, C("C28.follow", w.ast <= m.ast))))
     \cup When(v.loc > 0 /\ v.st = 200 /\ m.ok /\ s.ev[v.loc].st = 200 /\ s.ev[v.loc].m.ok,
          LET l == s.ev[v.loc].m IN
          C("C10.same", m.ast = l.ast /\ (HasStop(o) => m.mpdur = l.mpdur) /\ (m.type = "dynamic" => m.tsbd = l.tsbd)
             /\ (v.t = s.ev[v.loc].t => Len(m.periods) = Len(l.periods) /\ m.aet = l.aet /\ m.mpdur = l.mpdur)))

JudgePer(s, c, v) ==
  LET o == s.opts[v.oi]
      now == v.t[1]
      e == Eff(o, c, now)
      M == ManifestAt(o, c, e, MpdTime(o, now))
      listed == {j \in DOMAIN M.periods : M.periods[j].nr = v.nr}
      q == s.ev[v.plain].m
  IN When(~MpdRefused(o) /\ o.xlink > 0 /\ o.insertad <= 0 /\ listed # {},
       C("C08.fetch", v.st = 200)
       \cup When(v.st = 200 /\ s.ev[v.plain].st = 200 /\ q.ok,
            LET j == CHOOSE j \in listed : TRUE IN
            C("C08.same", j \in DOMAIN q.periods /\ v.pdig = q.periods[j].dig)))
     \cup When(~MpdRefused(o) /\ (o.xlink <= 0 \/ listed = {}), C("C08.unlisted", v.st = 404) \cup C("C27.success", v.st = 404))

----------------------------------------------------------------------------
(* HTTP: completeness, ranges, sessions, isolation                          *)
HttpClauses(v) == C("C27.reply", v.http = <<>>)

JudgeRange(v) ==
  LET x == Honour(v.full, v.rng) IN
  IF v.fullst # 200 THEN C("C18.error", v.st = v.fullst)
  ELSE IF x = <<>> THEN C("C18.full", v.st = 200 /\ v.whole) \cup C("C18.nocr", v.cr = <<>>)
  ELSE C("C18.status", v.st = 206)
       \cup When(v.st = 206, C("C18.range", v.cr = <<x[1], x[2], v.full>>) \cup C("C18.bytes", v.at = x[1] /\ v.len = x[2] - x[1] + 1) \cup C("C18.length", v.clen = v.len))
\* ranges that tile the resource reproduce it
JudgeCover(v) == C("C18.concat", v.joined)

\* session limit: max seconds, sts in the path or NONE
JudgeLimit(s, v) ==
  LET f == Fate(v.max, v.sts, v.t, v.ismpd) IN
  CASE f = "off" -> C("C20.off", v.st = v.plainst /\ v.samebody)
    [] f = "redirect" -> C("C20.redirect", v.st = 302)
         \cup When(v.st = 302, C("C20.target", v.target = v.want) \cup C("C20.sid", v.sidok))
    [] f = "nostart" -> C("C20.nostart", v.st = 404)
    [] f = "gone" -> C("C20.gone", v.st = 410)
    [] f = "future" -> C("C20.future", v.st = 404 /\ v.cls # "empty")
    [] OTHER -> C("C20.pass", v.st = v.plainst) \cup C("C20.body", v.samebody)

\* a reply is a function of request, clock and content: first occurrence of a key decides
JudgeMemo(s, i, v) == C("C19.function", \A j \in 1..(i - 1) : (s.ev[j].k = "memo" /\ s.ev[j].key = v.key) => s.ev[j].dig = v.dig)
                      \cup When(v.fresh # "", C("C19.fresh", v.dig = v.fresh))

\* a path that is not addressed properly is never answered with success; a grammar of <<>>: not judged
Misaddressed(v) == v.opts # <<>> /\ v.nested # NONE /\ Addressed(v.opts, v.nested = 1) = "no"
JudgeRaw(v) ==
  C("C27.status", v.st \in {200, 206, 302, 404, 410})
  \cup When(v.must404, C("C27.success", v.st = 404))
  \cup When(Misaddressed(v), C("C27.address", v.st = 404))
  \cup When(v.st = 404, C("C27.text", v.blen > 0 /\ v.ctype = "text/plain"))
  \cup When(v.st \in {200, 206} /\ v.wanttype # "", C("C27.type", v.ctype = v.wanttype))
  \cup C("C29.opens", v.outside = <<>>)
  \cup C("C29.leak", ~v.secret)
  \cup When(Refuses(OptionParts(v.opts), v.ismpd), C("C23.refuse", v.st = 404 /\ v.blen > 0 /\ v.cls # "empty"))

\* an analysis: v.rc: exit status, v.cfg: what it has written
JudgeAna(v) ==
  LET d == v.desc
      x == v.cfg
  IN IF Flaws(d) # {} THEN C(v.by \o ".reject", v.rc # 0) \cup C(v.by \o ".nothing", ~x.ok)
     ELSE When(~Unclear(d), C(v.by \o ".accept", v.rc = 0 /\ x.ok))
          \cup When(v.rc = 0 /\ x.ok,
               C(v.by \o ".loop", x.first = FirstNr(d) /\ x.n = LoopLen(d) /\ x.D = d.D)
               \cup C(v.by \o ".types", x.cts = {d.sets[i].ct : i \in DOMAIN d.sets})
               \cup UNION {LET y == d.sets[i]
                               z == x.media[y.ct]
                               segs == Looped(d, y.reps[1])
                           IN When(y.ct \in x.cts,
                                C(v.by \o ".media", z.reps = [k \in DOMAIN y.reps |-> y.reps[k].id] /\ z.ts = y.reps[1].ts)
                                \cup C(v.by \o ".table", Expand(z.tab) = segs)
                                \cup C(v.by \o ".total", z.total = Ticks(segs))) : i \in DOMAIN d.sets})

\* a call of the subtitle generator: v.p: what was asked for, v.files: numbers of the segments written
JudgeSub(v) ==
  LET p == v.p IN
  C("C30.files", v.rc = 0 /\ v.files = [k \in 1..p.n |-> k] /\ v.extra = <<>>)
  \cup C("C30.init", v.ini.ok)
  \cup When(v.ini.ok, C("C30.track", v.ini.tracks = <<p.track>> /\ v.ini.trex = <<p.track>> /\ v.ini.next > p.track)
                      \cup C("C30.language", v.ini.lang = p.lang)
                      \cup C("C30.kind", v.ini.ts = 1000 /\ v.ini.handler = "subt" /\ v.ini.entry = "stpp"))
  \cup UNION {LET k == v.files[i]
                  x == v.segs[i]
              IN C("C30.wellformed", x.ok)
                 \cup When(x.ok,
                      C("C30.sizes", x.covered /\ x.nsmp = 1)
                      \cup C("C30.segment", x.seq = k /\ x.track = p.track)
                      \cup C("C30.start", x.start = At(p, k))
                      \cup C("C30.duration", x.dur = p.d)
                      \cup C("C30.cues", [j \in DOMAIN x.cues |-> [b |-> x.cues[j].b, e |-> x.cues[j].e]] = CuesOf(p, k))
                      \cup C("C30.text", \A j \in DOMAIN x.cues : x.cues[j].lang = p.lang /\ x.cues[j].at = x.cues[j].b)
                      \cup C("C30.ids", \A j, l \in DOMAIN x.cues : x.cues[j].id = x.cues[l].id => j = l)
                      \cup C("C30.speech", x.lang = p.lang)) : i \in DOMAIN v.files}

\* a call of the caption inserter; a packet of words (see Captions) is one unit of its own
Digs(us) == [i \in DOMAIN us |-> us[i].dig]
CapSample(v, x, y, k) ==
  LET ins == Inserted(v.caps, SampleStart(x.start, x.smp, k, v.ts), SampleStart(x.start, x.smp, k + 1, v.ts), v.ts)
      us == x.smp[k].u
      f == FirstPicture(us)
      ws == y.smp[k].u
      m == Len(ins)
  IN C("C25.place", Len(ws) = Len(us) + m /\ Digs(SubSeq(ws, 1, f - 1)) = Digs(SubSeq(us, 1, f - 1))
                    /\ Digs(SubSeq(ws, f + m, Len(ws))) = Digs(SubSeq(us, f, Len(us))))
     \cup When(Len(ws) = Len(us) + m, C("C25.packets", \A i \in 1..m : ws[f + i - 1].cc = [ok |-> TRUE, field |-> v.field, w |-> ins[i]]))
     \cup C("C25.samples", y.smp[k].d = x.smp[k].d /\ y.smp[k].x = x.smp[k].x)
JudgeCap(v) ==
  IF ~v.sizes /\ \E i \in DOMAIN v.stored : \E x \in Range(v.stored[i].segs) : Hits(v.caps, x.start, CapSegEnd(x, v.ts), v.ts) # {}
  THEN C("C25.refuse", v.rc # 0 /\ v.kept /\ \A i \in DOMAIN v.got : v.got[i].segs = <<>>)
  ELSE C("C25.accept", v.rc = 0)
       \cup C("C25.kept", v.kept)
       \cup C("C25.files", v.extra = <<>> /\ \A i \in DOMAIN v.stored :
              [j \in DOMAIN v.got[i].segs |-> v.got[i].segs[j].n] = LET S == SelectSeq(v.stored[i].segs, LAMBDA x : Hits(v.caps, x.start, CapSegEnd(x, v.ts), v.ts) # {}) IN [j \in DOMAIN S |-> S[j].n])
       \cup UNION {UNION {LET y == v.got[i].segs[j]
                             S == {z \in Range(v.stored[i].segs) : z.n = y.n}
                         IN C("C25.wellformed", y.ok)
                            \cup When(y.ok /\ S # {},
                                 LET x == CHOOSE z \in S : TRUE IN
                                 C("C25.rest", y.rest = x.rest /\ y.start = x.start /\ Len(y.smp) = Len(x.smp))
                                 \cup C("C25.sizes", y.covered)
                                 \cup When(y.sidx # <<>>, C("C25.sidx", y.sidx[1].size = y.whole))
                                 \cup When(Len(y.smp) = Len(x.smp), UNION {CapSample(v, x, y, k) : k \in DOMAIN x.smp}))
                         : j \in DOMAIN v.got[i].segs} : i \in DOMAIN v.got}

JudgeEvent(s, c, i) ==
  LET v == s.ev[i] IN
  HttpClauses(v) \cup Rel(s, v) \cup
  (CASE v.k = "seg" -> JudgeSeg(s, c, v)
     [] v.k = "mpd" -> JudgeMpd(s, c, v)
     [] v.k = "per" -> JudgePer(s, c, v)
     [] v.k = "thumb" -> JudgeThumb(s, c, v)
     [] v.k = "init" -> JudgeInit(s, c, v)
     [] v.k = "range" -> JudgeRange(v)
     [] v.k = "cover" -> JudgeCover(v)
     [] v.k = "limit" -> JudgeLimit(s, v)
     [] v.k = "memo" -> JudgeMemo(s, i, v)
     [] v.k = "raw" -> JudgeRaw(v)
     [] v.k = "ana" -> JudgeAna([v EXCEPT !.cfg.cts = Range(v.cfg.cts)])
     [] v.k = "sub" -> JudgeSub(v)
     [] v.k = "cap" -> JudgeCap(v)
     [] v.k = "chop" -> JudgeChop(c, v)
     [] OTHER -> {})
=============================================================================
