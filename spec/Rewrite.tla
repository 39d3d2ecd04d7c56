------------------------------- MODULE Rewrite ------------------------------
(* The rewriting of stored segments, abstractly: boxes have sizes (in words),*)
(* the movie fragment holds offsets relative to its own start. Every step of *)
(* the rewriting pipeline changes sizes and adjusts the offsets by the rule  *)
(* "add what the movie fragment has grown by"; multiplexing adds the change  *)
(* of the position of what is addressed. The invariants say that every offset*)
(* still addresses what it addressed in the stored segment.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxRuns, MaxSize, Mux        \* Mux: two segments end up in one

VARIABLES ph, seg, out, top
vars == <<ph, seg, out, top>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Sizes(bs) == [i \in DOMAIN bs |-> bs[i].size]
BoxesSize(bs) == Sum(Sizes(bs))
PosIn(bs, i) == Sum(SubSeq(Sizes(bs), 1, i - 1))      \* position of box i in the sequence
At(bs, id) == CHOOSE i \in DOMAIN bs : bs[i].id = id
HasBox(bs, id) == \E i \in DOMAIN bs : bs[i].id = id

\* a stored segment: children of the fragment before/in/after the track fragment, sizes of the data of the runs
\* offs: sequence of [to |-> <<"run", k>> or <<"aux", k>>, val]; the auxiliary information box has one entry or one per run
FragHead == 2
TrafHead == 2
MoofSize(s) == FragHead + BoxesSize(s.pre) + TrafHead + BoxesSize(s.traf) + BoxesSize(s.post)
TrafPos(s) == FragHead + BoxesSize(s.pre)
RunPos(s, k) == MoofSize(s) + 2 + Sum(SubSeq(s.runs, 1, k - 1))         \* data follow directly, 2 words of header
AuxPos(s, k) == TrafPos(s) + TrafHead + PosIn(s.traf, At(s.traf, "senc")) + k
Target(s, to) == IF to[1] = "run" THEN RunPos(s, to[2]) ELSE AuxPos(s, to[2])
Offs(s) == [k \in DOMAIN s.runs |-> [to |-> <<"run", k>>, val |-> RunPos(s, k)]]
           \o (IF HasBox(s.traf, "senc")
               THEN [k \in 1..(IF s.traf[At(s.traf, "saio")].size = 4 THEN 1 ELSE Len(s.runs)) |-> [to |-> <<"aux", k>>, val |-> AuxPos(s, k)]]
               ELSE <<>>)

Box(id, size) == [id |-> id, size |-> size]
Trafs == {<<Box("tfhd", h), Box("tfdt", d)>> \o tail : h \in {3, 4}, d \in {5, 6},
            tail \in {<<Box("trun", 5)>>, <<Box("trun", 5), Box("saio", 4), Box("senc", 6)>>, <<Box("uuid", 2), Box("trun", 4), Box("trun", 4)>>,
                      <<Box("senc", 3), Box("saio", 5), Box("trun", 6)>>}}
Stored == {LET s == [pre |-> <<Box("mfhd", 4)>> \o p, traf |-> tr, post |-> q, runs |-> rs, offs |-> <<>>, done |-> {}]
           IN [s EXCEPT !.offs = Offs(s)] :
             p \in {<<>>, <<Box("free", 1)>>}, q \in {<<>>, <<Box("free", 2)>>}, tr \in Trafs,
             rs \in UNION {[1..m -> 1..MaxSize] : m \in 1..MaxRuns}}
Tops == {<<Box("styp", 6)>> \o x : x \in {<<>>, <<Box("sidx", 8)>>, <<Box("free", 1), Box("sidx", 9)>>}}

NoSeg == <<>>
Init == ph = "stored" /\ seg \in [1..(IF Mux THEN 2 ELSE 1) -> Stored] /\ top \in Tops /\ out = NoSeg

\* --- rewriting of one segment
Grow(s, by) == [j \in DOMAIN s.offs |-> [s.offs[j] EXCEPT !.val = @ + by]]
Widen(i) ==           \* decode time to 64 bits
  /\ ph = "stored" /\ "widen" \notin seg[i].done
  /\ LET s == seg[i]
         d == At(s.traf, "tfdt")
         by == 6 - s.traf[d].size
     IN seg' = [seg EXCEPT ![i] = [s EXCEPT !.traf[d].size = 6, !.offs = Grow(s, by), !.done = @ \cup {"widen"}]]
  /\ UNCHANGED <<ph, out, top>>
MarkLast == /\ ph = "stored" /\ top[1].size = 6 /\ top' = [top EXCEPT ![1].size = 7] /\ UNCHANGED <<ph, seg, out>>
DropIndex ==
  /\ ph = "stored" /\ ph' = "dropped" /\ top' = SelectSeq(top, LAMBDA b : b.id # "sidx") /\ UNCHANGED <<seg, out>>
AddIndex ==           \* computed from the sizes after all rewriting of the fragment; anything else goes in front of it
  /\ ~Mux /\ ph = "dropped" /\ ph' = "indexed"
  /\ top' = Append(top, [id |-> "sidx", size |-> 9, refers |-> MoofSize(seg[1]) + 2 + Sum(seg[1].runs)])
  /\ UNCHANGED <<seg, out>>
AddEvent ==           \* event messages go behind the segment type box
  /\ ~Mux /\ ph \in {"dropped", "indexed"} /\ ~HasBox(top, "emsg")
  /\ top' = <<top[1], Box("emsg", 12)>> \o Tail(top) /\ UNCHANGED <<ph, seg, out>>

\* --- two segments into one: one movie fragment header, both track fragments, one media data box
MuxMoof == FragHead + 4 + 2 * TrafHead + BoxesSize(seg[1].traf) + BoxesSize(seg[2].traf)
MuxTrafPos(i) == FragHead + 4 + (IF i = 2 THEN TrafHead + BoxesSize(seg[1].traf) ELSE 0)
MuxRunPos(i, k) == MuxMoof + 2 + (IF i = 2 THEN Sum(seg[1].runs) ELSE 0) + Sum(SubSeq(seg[i].runs, 1, k - 1))
MuxTarget(i, to) == IF to[1] = "run" THEN MuxRunPos(i, to[2])
                    ELSE MuxTrafPos(i) + TrafHead + PosIn(seg[i].traf, At(seg[i].traf, "senc")) + to[2]
Moved(i, x) == IF x.val < MoofSize(seg[i]) THEN x.val + MuxTrafPos(i) - TrafPos(seg[i])
               ELSE x.val + MuxMoof - MoofSize(seg[i]) + (IF i = 2 THEN Sum(seg[1].runs) ELSE 0)
Join ==
  /\ Mux /\ ph = "dropped" /\ ph' = "muxed"
  /\ out' = [i \in 1..2 |-> [j \in DOMAIN seg[i].offs |-> [seg[i].offs[j] EXCEPT !.val = Moved(i, seg[i].offs[j])]]]
  /\ UNCHANGED <<seg, top>>

Next == (\E i \in DOMAIN seg : Widen(i)) \/ MarkLast \/ DropIndex \/ AddIndex \/ AddEvent \/ Join
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the rule "add what the fragment has grown by" needs everything addressed to lie behind the decode time
Behind(s) == HasBox(s.traf, "senc") => At(s.traf, "senc") > At(s.traf, "tfdt")
Resolved == \A i \in DOMAIN seg : Behind(seg[i]) => \A j \in DOMAIN seg[i].offs : seg[i].offs[j].val = Target(seg[i], seg[i].offs[j].to)
MuxResolved == ph = "muxed" => \A i \in 1..2 : \A j \in DOMAIN out[i] : out[i][j].val = MuxTarget(i, out[i][j].to)
\* the data of all runs lie one behind the other in one media data box, nothing is left over
MuxCovered == ph = "muxed" =>
   Cardinality({<<i, j>> \in {1, 2} \X (1..MaxRuns + 1) : j \in DOMAIN seg[i].runs}) = Len(seg[1].runs) + Len(seg[2].runs)
   /\ MuxRunPos(2, 1) = MuxRunPos(1, Len(seg[1].runs)) + seg[1].runs[Len(seg[1].runs)]
Indexes == {i \in DOMAIN top : top[i].id = "sidx"}
IndexExact == ph = "indexed" => /\ Indexes = {Len(top)}
                                /\ top[Len(top)].refers = MoofSize(seg[1]) + 2 + Sum(seg[1].runs)
NoStaleIndex == ph \in {"dropped", "muxed"} => Indexes = {}
TypeFirst == top[1].id = "styp"
EventFirst == \A i \in DOMAIN top : top[i].id = "emsg" => i = 2
=============================================================================
