------------------------------ MODULE MCSubgen -----------------------------
(* All small generated contents, written cue by cue by a writer that only   *)
(* knows the time it has reached: the cues are those of Subgen, follow each *)
(* other without gap or overlap and change segments only at its boundaries. *)
EXTENDS Subgen
CONSTANTS MaxN, Ds, Rs
VARIABLES p, k, now, out       \* parameters, segment, time reached, cues written: <<segment, cue>>
vars == <<p, k, now, out>>
Init == /\ \E n \in 0..MaxN, d \in Ds, r \in Rs : p = [n |-> n, d |-> <<d \div 1000, d % 1000>>, r |-> r, lang |-> "", track |-> 1]
        /\ k = 1 /\ now = <<0, 0>> /\ out = <<>>
End == At(p, k + 1)
Write == /\ k <= p.n
         /\ LET e == IF TLess(TAddMs(now, p.r), End) THEN TAddMs(now, p.r) ELSE End
            IN /\ out' = Append(out, <<k, [b |-> now, e |-> e]>>)
               /\ now' = e
               /\ k' = IF e = End THEN k + 1 ELSE k
         /\ UNCHANGED p
Spec == Init /\ [][Write]_vars
Written(i) == LET S == {x \in DOMAIN out : out[x][1] = i} IN {out[x][2] : x \in S}
Expected == \A i \in 1..(k - 1) : Written(i) = Range(CuesOf(p, i)) /\ Cardinality({x \in DOMAIN out : out[x][1] = i}) = NCues(p)
Tiled == \A x \in 1..(Len(out) - 1) : out[x][2].e = out[x + 1][2].b
Positive == \A x \in DOMAIN out : TLess(out[x][2].b, out[x][2].e)
Inside == \A x \in DOMAIN out : TLeq(At(p, out[x][1]), out[x][2].b) /\ TLeq(out[x][2].e, At(p, out[x][1] + 1))
Short == Len(out) <= 20
=============================================================================
