------------------------------- MODULE Paths -------------------------------
(* The grammar of request paths, and where a path leads in the file system.  *)
(* A part is [key, cls, val, c]: key, cls, val as in module Options, c the   *)
(* class of the part:                                                        *)
(*   option, content, nocontent, dir (the directory of representations),     *)
(*   rep, mux (two representations), img (thumbnails), badrep, word, dots (..), dot (.),       *)
(*   empty, and files: init, num, time, image, mpd, period, badfile          *)
EXTENDS Options
Files == {"init", "num", "time", "image", "mpd", "period", "badfile"}
\* what follows the options
Rest(ps) == SubSeq(ps, OptionCount(ps) + 1, Len(ps))
\* "yes": may be answered with success; "no": never; "free": the documentation leaves it open
HasXlink(ps) == \E i \in 1..OptionCount(ps) : ps[i].key = "xlink"
Addressed(ps, nested) ==
  LET r == Rest(ps)
      body == IF nested THEN 4 ELSE 3
      cs == [i \in DOMAIN r |-> r[i].c]
  IN IF \E i \in DOMAIN cs : cs[i] = "dot" \/ (i \in 2..(Len(cs) - 1) /\ cs[i] = "empty") THEN "free"
     ELSE IF \E i \in DOMAIN cs : cs[i] = "dots" THEN "no"
     ELSE IF Len(r) < 2 \/ cs[1] # "content" THEN "no"
     ELSE LET f == cs[Len(r)] IN
       IF f = "badfile" \/ f \notin Files THEN "no"
       ELSE IF f \in {"mpd", "period"} THEN
         (IF Len(r) = 2 THEN (IF f = "period" /\ ~HasXlink(ps) THEN "no" ELSE "yes")
          ELSE IF Len(r) >= 3 /\ cs[Len(r) - 1] \in {"rep", "mux", "img"} THEN "free" ELSE "no")
       ELSE IF Len(r) # body THEN "no"
       ELSE IF nested /\ cs[2] # "dir" THEN "no"
       ELSE CASE cs[body - 1] = "mux" -> (IF f \in {"init", "num", "time"} THEN "yes" ELSE "no")
              [] cs[body - 1] = "img" -> (IF f = "image" THEN "yes" ELSE "no")
              [] cs[body - 1] = "rep" -> (IF f = "image" THEN "no" ELSE "yes")
              [] OTHER -> "no"
----------------------------------------------------------------------------
(* File system: parts after the options are joined below the content root.   *)
Up == ".."
\* python's join of root, content, relative path, file; an absolute relative path starts anew
Joined(content, rel, file) == IF rel # <<>> /\ Head(rel) = "" /\ Len(rel) > 1 THEN [abs |-> TRUE, p |-> Tail(rel) \o <<file>>]
                              ELSE [abs |-> FALSE, p |-> <<content>> \o rel \o <<file>>]
RECURSIVE Walk(_, _)
Walk(dirs, p) == IF p = <<>> THEN dirs
                 ELSE IF Head(p) \in {"", "."} THEN Walk(dirs, Tail(p))
                 ELSE IF Head(p) = Up THEN Walk(IF dirs = <<>> THEN <<>> ELSE SubSeq(dirs, 1, Len(dirs) - 1), Tail(p))
                 ELSE Walk(Append(dirs, Head(p)), Tail(p))
Root == <<"srv", "content">>
Where(content, rel, file) == LET j == Joined(content, rel, file) IN Walk(IF j.abs THEN <<>> ELSE Root, j.p)
Inside(w) == Len(w) >= Len(Root) /\ SubSeq(w, 1, Len(Root)) = Root
\* the server's rule
Accepts(content, rel, file) == ~(Up \in {content, file} \cup Range(rel)) /\ ~(rel # <<>> /\ Head(rel) = "" /\ Len(rel) > 1)
=============================================================================
