------------------------------ MODULE PathGen ------------------------------
(* Request paths: proper ones, changed in up to MaxEdits places.             *)
(* As a model: every accepted path leads below the content root.             *)
EXTENDS Paths, Json
CONSTANTS Emit, MaxEdits, MaxLen, Names
VARIABLES path, edits, phase, fs
vars == <<path, edits, phase, fs>>
P(c) == [key |-> "", cls |-> "", val |-> 0, c |-> c]
O(k, cls, v) == [key |-> k, cls |-> cls, val |-> v, c |-> "option"]
Options1 == {O("start", "int", 0), O("tsbd", "int", 30), O("snr", "int", 0), O("xlink", "int", 60), O("periods", "int", 60), O("segtimeline", "int", 1), O("chunkdur", "word", 0), O("sidx", "int", 1), O("sts", "int", 0),
             O("tfdt", "word", 0), O("baseurl", "word", 0), O("init", "int", 5), O("ato", "word", 0), O("scte35", "int", 1)}
BadOpts == {O("start", "word", 0), O("snr", "int", -3), O("utc", "word", 0), O("tsbd", "bare", 0), O("mup", "word", 0), O("modulo", "int", 0)}
Tails == {<<P("content"), P("mpd")>>, <<P("content"), P("period")>>} \cup {<<P("content"), P(r), P(f)>> : r \in {"rep", "mux", "img"}, f \in {"init", "num", "time", "image"}}
         \cup {<<P("content"), P("dir"), P(r), P(f)>> : r \in {"rep", "mux", "img"}, f \in {"init", "num", "time", "image"}}
AnyPart == Options1 \cup BadOpts \cup {P(c) : c \in {"content", "nocontent", "dir", "rep", "mux", "img", "badrep", "word", "dots", "dot", "empty"} \cup Files}
Rnd(S) == RandomElement(IF Len(path) >= 0 THEN S ELSE {})
Rm(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Ins(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
\* generation
GenInit == path = <<>> /\ edits = 0 /\ phase = "new" /\ fs = <<>>
New == /\ phase = "new"
       /\ \E t \in {Rnd(Tails)} : \E n \in {Rnd(0..2)} : \E a \in {Rnd(Options1)} : \E b \in {Rnd(Options1)} :
            path' = (CASE n = 0 -> <<>> [] n = 1 -> <<a>> [] OTHER -> IF a.key = b.key THEN <<a>> ELSE <<a, b>>) \o t
       /\ \E k \in {Rnd(0..MaxEdits)} : edits' = k
       /\ phase' = "edit" /\ fs' = fs
Edit == /\ phase = "edit" /\ edits > 0 /\ edits' = edits - 1
        /\ \E k \in {Rnd(1..5)} : \E i \in {Rnd(1..(Len(path) + 1))} : \E x \in {Rnd(AnyPart)} : \E j \in {Rnd(1..(Len(path) + 1))} :
             path' = (IF path = <<>> THEN <<x>>
                      ELSE LET i2 == Min2(i, Len(path))  j2 == Min2(j, Len(path)) IN
                      CASE k = 1 -> Rm(path, i2) [] k = 2 -> Ins(path, i, x) [] k = 3 -> [path EXCEPT ![i2] = x]
                        [] k = 4 -> [path EXCEPT ![i2] = path[j2], ![j2] = path[i2]] [] OTHER -> Ins(path, i, path[j2]))
        /\ UNCHANGED <<phase, fs>>
Show == phase = "edit" /\ edits = 0 /\ Emit /\ PrintT("GEN " \o ToJson(path)) /\ phase' = "new" /\ UNCHANGED <<path, edits, fs>>
GenSpec == GenInit /\ [][New \/ Edit \/ Show]_vars
----------------------------------------------------------------------------
\* all small paths in the file system
Init == /\ path = <<>> /\ edits = 0 /\ phase = "fs"
        /\ fs \in UNION {[1..n -> Names] : n \in 2..MaxLen}
Spec == Init /\ [][UNCHANGED vars]_vars
Content == fs[1]
File == fs[Len(fs)]
Rel == SubSeq(fs, 2, Len(fs) - 1)
Contained == phase = "fs" => (Accepts(Content, Rel, File) => Inside(Where(Content, Rel, File)))
\* the rule is needed: dropping either half lets paths out
NotVacuous == phase = "fs" => (~Inside(Where(Content, Rel, File)) => ~Accepts(Content, Rel, File))
=============================================================================
