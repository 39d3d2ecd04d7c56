------------------------------- MODULE Serve -------------------------------
(* From the request to the reply: the phases of the WSGI application, any of *)
(* which may raise. Whatever happens there is exactly one status line, and   *)
(* the reply is explicit and complete.                                       *)
EXTENDS Base
Exts == {"mpd", "period", "m4s", "mp4", "jpg", "other"}
Limits == {"off", "redirect", "nostart", "gone", "future", "pass"}
Results == {"bytes", "str", "empty", "refused", "chunks", "unset"}
VARIABLES pc, req, starts, status, ctype, clen, body, payload, success, sent
vars == <<pc, req, starts, status, ctype, clen, body, payload, success, sent>>
\* fault: the phase that raises, or "none"
Requests == [uri : BOOLEAN, limit : Limits, ext : Exts, result : Results, range : {"none", "good", "bad"}, fault : {"none", "options", "content", "rewrite"}, n : {1, 3}]
Init == /\ req \in Requests
        /\ (req.result = "chunks" => req.ext = "m4s")
        /\ (req.ext = "other" <=> req.result = "unset")
        /\ pc = "parse" /\ starts = 0 /\ status = 0 /\ ctype = "" /\ clen = -1 /\ body = 0 /\ payload = 0 /\ success = TRUE /\ sent = 0
Reply(st, ty, len) == starts' = starts + 1 /\ status' = st /\ ctype' = ty /\ clen' = len
Text == 11                                    \* length of an explanation
TypeOf(e) == IF e \in {"mpd", "m4s", "mp4", "jpg"} THEN e ELSE "text"
Parse == /\ pc = "parse"
         /\ IF req.uri THEN pc' = "limit" /\ UNCHANGED <<starts, status, ctype, clen, body>>
            ELSE Reply(404, "text", Text) /\ body' = Text /\ pc' = "done"
         /\ UNCHANGED <<req, payload, success, sent>>
LimitStep ==
         /\ pc = "limit"
         /\ CASE req.limit \in {"off", "pass"} -> pc' = "provider" /\ UNCHANGED <<starts, status, ctype, clen, body>>
              [] req.limit = "redirect" -> Reply(302, "text", 0) /\ body' = 0 /\ pc' = "done"
              [] req.limit = "gone" -> Reply(410, "text", Text) /\ body' = Text /\ pc' = "done"
              [] OTHER -> Reply(404, "text", Text) /\ body' = Text /\ pc' = "done"
         /\ UNCHANGED <<req, payload, success, sent>>
Provider == /\ pc = "provider"
            /\ IF req.fault # "none" \/ req.result = "unset" THEN success' = FALSE /\ payload' = Text      \* the exception's text
               ELSE /\ success' = (req.result \in {"bytes", "str", "chunks"})
                    /\ payload' = (IF req.result = "empty" THEN 0 ELSE IF req.result = "refused" THEN Text ELSE 100)
            /\ pc' = "reply" /\ UNCHANGED <<req, starts, status, ctype, clen, body, sent>>
Deliver == /\ pc = "reply"
           /\ LET p == IF ~success /\ payload = 0 THEN Text ELSE payload
                  ch == success /\ req.result = "chunks"
                  part == success /\ ~ch /\ req.range = "good"
              IN IF ch THEN Reply(200, TypeOf(req.ext), -1) /\ body' = 0 /\ pc' = "chunks"
                 ELSE /\ Reply(IF ~success THEN 404 ELSE IF part THEN 206 ELSE 200, IF success THEN TypeOf(req.ext) ELSE "text", IF part THEN 10 ELSE p)
                      /\ body' = (IF part THEN 10 ELSE p) /\ pc' = "done"
           /\ UNCHANGED <<req, payload, success, sent>>
Chunk == /\ pc = "chunks"
         /\ IF sent < req.n THEN sent' = sent + 1 /\ body' = body + 50 /\ pc' = pc ELSE pc' = "done" /\ UNCHANGED <<sent, body>>
         /\ UNCHANGED <<req, starts, status, ctype, clen, payload, success>>
Next == Parse \/ LimitStep \/ Provider \/ Deliver \/ Chunk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
OneStatusLine == starts <= 1 /\ (body > 0 => starts = 1)
Done == pc = "done"
Complete == Done => starts = 1 /\ status \in {200, 206, 302, 404, 410} /\ (clen >= 0 => clen = body) /\ (clen < 0 => status = 200 /\ body > 0)
Explicit == Done /\ status \in {404, 410} => ctype = "text" /\ body > 0
NoFalseSuccess == Done /\ status \in {200, 206} => req.fault = "none" /\ req.result \in {"bytes", "str", "chunks"} /\ body > 0
Terminates == <>Done
=============================================================================
