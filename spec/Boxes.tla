-------------------------------- MODULE Boxes ------------------------------
(* What a served segment contains, in terms of the stored one.              *)
(* f: decoded reply [ok, top, lmsg, brands, frags, sidx, emsg];             *)
(* a fragment: [seq, msize, mdat, covered, at, tracks]; a track:            *)
(* [tid, tfdt, tver, smp, nsmp, dur, aux, oth, pay]                         *)
EXTENDS Stream

StoredSeg(c, rid, k) == c.reps[rid].segs[(k % c.n) + 1]

Shape(f, nfr, ntr) == f.ok /\ Len(f.frags) = nfr /\ \A i \in 1..nfr : Len(f.frags[i].tracks) = ntr

\* every sample of the track is the stored one, side data kept and found at its offsets
SameSamples(tr, s) == tr.smp = s.smp
SameSide(tr, s) == tr.aux = s.aux /\ tr.oth = s.oth
\* the samples make up the media data, but for what is not used in the stored segments either
Covered(f, spare) == \A i \in DOMAIN f.frags : f.frags[i].covered + spare = f.frags[i].mdat
\* a segment index, where present, precisely describes the fragment that follows directly
IndexOK(f, x, fr, tr, ts) ==
  /\ x.at = fr.at - 1 /\ x.ts = ts /\ x.ept = tr.tfdt /\ x.first = 0
  /\ x.cnt = 1 /\ x.type = 0 /\ x.size = fr.msize /\ x.dur = tr.dur
IndexesOK(f, ts) == \A i \in DOMAIN f.sidx : IndexOK(f, f.sidx[i], f.frags[1], f.frags[1].tracks[1], ts)

\* brands: those of the stored segment without "lmsg", plus "lmsg" when last
NoLast(br) == SelectSeq(br, LAMBDA x : x # "lmsg")

----------------------------------------------------------------------------
\* chunked delivery: partition of the samples
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
AllSamples(f) == Concat([i \in DOMAIN f.frags |-> f.frags[i].tracks[1].smp])
RECURSIVE FragEnd(_, _)
FragEnd(f, i) == IF i = 0 THEN 0 ELSE FragEnd(f, i - 1) + f.frags[i].tracks[1].dur
LastDur(tr) == tr.smp[Len(tr.smp)][3]
JustReaching(f, d) ==       \* d: chunk duration in ticks
  \A i \in 1..(Len(f.frags) - 1) :
     LET fr == f.frags[i].tracks[1] IN
     /\ Len(fr.smp) > 0
     /\ FragEnd(f, i) >= i * d
     /\ Len(fr.smp) > 1 => FragEnd(f, i) - LastDur(fr) < i * d
LastNotOver(f, d) ==        \* the last fragment is not larger than the others
  LET m == Len(f.frags)
      fr == f.frags[m].tracks[1]
  IN Len(fr.smp) > 0 /\ (Len(fr.smp) > 1 => FragEnd(f, m) - LastDur(fr) < m * d)
Contiguous(f, start, ts) ==
  \A i \in DOMAIN f.frags : f.frags[i].tracks[1].tfdt = MTAdd(start, FragEnd(f, i - 1), ts)
\* release instant of chunk i of the segment starting at second s
Release(s, i, chunkms) == TAddMs(Sec(s), i * chunkms - 100)
=============================================================================
