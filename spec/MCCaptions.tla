----------------------------- MODULE MCCaptions ----------------------------
(* A stream of samples passes an inserter that only remembers the time it   *)
(* has reached, for all small caption files (in any order, several at one   *)
(* time): every caption within the stream is shown exactly once, in time    *)
(* order, in the sample that covers it, and nothing else is.                *)
EXTENDS Captions
CONSTANTS MaxCaps, MaxSamples, Durs, Ts, Secs, Frames, Lens
VARIABLES caps, smp, now, shown       \* shown: <<sample, caption, packets>>
vars == <<caps, smp, now, shown>>
Start == <<1, 0>>
Times == {<<s, f>> : s \in Secs, f \in Frames}
Init == /\ \E m \in 0..MaxCaps : caps \in [1..m -> {[t |-> t, w |-> [i \in 1..l |-> i]] : t \in Times, l \in Lens}]
        /\ smp = <<>> /\ now = Start /\ shown = <<>>
Sample == /\ Len(smp) < MaxSamples
          /\ \E d \in Durs :
               LET to == MTAdd(now, d, Ts)
                   o == InOrder(caps, Hits(caps, now, to, Ts))
               IN /\ shown' = shown \o [k \in DOMAIN o |-> <<Len(smp) + 1, o[k], Packets(caps[o[k]].w)>>]
                  /\ smp' = Append(smp, [d |-> d, u |-> <<>>]) /\ now' = to
          /\ UNCHANGED caps
Spec == Init /\ [][Sample]_vars
Once == \A i, j \in DOMAIN shown : shown[i][2] = shown[j][2] => i = j
All == \A i \in DOMAIN caps : (\E j \in DOMAIN shown : shown[j][2] = i) <=> (caps[i].w # <<>> /\ Covers(Start, now, Ts, caps[i]))
Ordered == \A i, j \in DOMAIN shown : i < j => TLeq(CapTime(caps[shown[i][2]]), CapTime(caps[shown[j][2]]))
Placed == \A i \in DOMAIN shown : LET k == shown[i][1] IN Covers(SampleStart(Start, smp, k, Ts), SampleStart(Start, smp, k + 1, Ts), Ts, caps[shown[i][2]])
Complete == \A i \in DOMAIN shown : Joined(shown[i][3]) = caps[shown[i][2]].w /\ \A p \in DOMAIN shown[i][3] : Len(shown[i][3][p]) \in 1..PerPacket
=============================================================================
