------------------------------ MODULE Options ------------------------------
(* The options of a URL: path parts [key, cls, val] up to the first part     *)
(* without a known key, which is the content name. cls: "int", "word" (not a *)
(* number), "bare" (a known key without a value).                            *)
EXTENDS Base
IntKeys == {"start", "ast", "stop", "startrel", "stoprel", "dur", "timeoffset", "init", "tsbd", "mup", "modulo", "periods", "xlink", "etp", "etpDuration",
            "insertad", "mpdcallback", "continuous", "segtimeline", "segtimelinenr", "peroff", "scte35", "snr", "spd", "sidx", "segtimelineloss"}
Markers == {"sts", "sid"}
FreeKeys == {"tfdt", "cont", "baseurl", "utc", "ato", "chunkdur"} \cup Markers
Keys == IntKeys \cup FreeKeys
UtcMethods == {"direct", "head", "ntp", "sntp", "httpxsdate", "httpiso"}
StartKeys == {"start", "ast", "startrel"}
\* options of a path: the longest prefix of parts with known keys
RECURSIVE OptionCount(_)
OptionCount(ps) == IF ps = <<>> \/ Head(ps).key \notin Keys THEN 0 ELSE 1 + OptionCount(Tail(ps))
OptionParts(ps) == SubSeq(ps, 1, OptionCount(ps))
Keyset(os) == {os[i].key : i \in DOMAIN os}
\* refused whatever is asked for
Inconsistent(os) ==
  \/ \E i \in DOMAIN os : os[i].cls = "bare" \/ (os[i].key \in IntKeys /\ os[i].cls # "int")
  \/ "modulo" \in Keyset(os) /\ Keyset(os) \cap StartKeys # {}
  \/ "tfdt" \in Keyset(os) /\ "cont" \in Keyset(os)
  \/ \E i \in DOMAIN os : os[i].key = "snr" /\ os[i].cls = "int" /\ os[i].val < -1
\* refused in manifest requests
NoClock(os) == \E i \in DOMAIN os : os[i].key = "utc" /\ os[i].cls = "word"      \* a method that does not exist
Refuses(os, ismpd) == Inconsistent(os) \/ (ismpd /\ NoClock(os))
=============================================================================
