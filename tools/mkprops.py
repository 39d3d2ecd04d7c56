#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
D = "dashlivesim/dashlib/"
W = "dashlivesim/mod_wsgi/mod_dashlivesim.py"
p("C01", "A media segment is served exactly during its availability window",
  "A request for media segment number n is answered with the segment if and only if n lies in the stream's number range (start number, stop time, last segment of a limited session) and the current time lies between the moment the segment is complete (its end on the wall clock minus any availability time offset) and that moment plus one segment duration plus the time-shift buffer depth. Outside the window the answer is a 404 whose text says which side was missed, and an infinite time offset removes both time limits but not the wait for the availability start time. The window is exact to the sub-second for every start time, start number, time offset, stop time and buffer depth given in the URL.",
  ["inputs", "configurations", "histories"], "every segment number, current time (sub-second), content description, and combination of start/stop/dur/timeoffset/tsbd/ato/snr options",
  "The tests sample a handful of (time, number) pairs with one content; the window must hold for every time, number and option combination, and an off-by-one at an edge or a wrong option interaction is invisible to them.",
  [D+"dash_proxy.py", D+"configprocessor.py"],
  [("get_media: first-segment and after-end limits", D+"dash_proxy.py:get_media"), ("process_media_segment: number range and early/late comparisons", D+"dash_proxy.py:process_media_segment"), ("start/stop number arithmetic", D+"configprocessor.py:Config.adjusted_start_number,stop_number,process_start_time")],
  ["HTTP status and text of the reply to <prefix>/<options>/<content>/<rep>/<n>.m4s"])
p("C02", "Segments map onto the looped VoD content with seamless timing",
  "Segment n of a stream carries the VoD segment that lies at n's position in the endless repetition of the content, with sequence number n and a decode time equal to the VoD segment's own decode time plus whole loop durations. Hence consecutive segments of a representation follow each other without gap or overlap inside a loop, and across the loop boundary up to the content's own loop error, for every loop count including those where decode times outgrow 32 bits. The same holds when the segment is addressed by its media time instead of its number.",
  ["inputs", "configurations", "histories"], "every segment number up to and beyond the 32-bit decode time limit, every loop length, first VoD number, timescale, decode-time box version, start time, start number and time offset",
  "Tests look at a few segments of one content whose loop is one hour; wrap positions, other timescales, other first numbers and 32/64-bit boundaries form an unbounded set.",
  [D+"dash_proxy.py", D+"mediasegmentfilter.py", D+"configprocessor.py"],
  [("loop arithmetic (divmod over loop duration)", D+"dash_proxy.py:process_media_segment"), ("decode time rewriting", D+"mediasegmentfilter.py:process_tfdt"), ("sequence number rewriting", D+"mediasegmentfilter.py:process_mfhd")],
  ["payload identity, mfhd sequence number and tfdt of served segments"])
p("C03", "Rewriting a segment never corrupts its media or its box structure",
  "Whatever boxes the server rewrites, widens, removes or inserts, a served segment is a well-formed box sequence in which every sample (bytes, size, duration, flags, composition offset) is the stored one and every data offset and auxiliary-information offset points at the data it pointed at in the stored segment. When a segment index is asked for, exactly one index is inserted directly before the movie fragment, describing precisely the fragment's size, start time, duration and timescale; otherwise the segment carries none.",
  ["inputs", "configurations"], "every stored segment layout (decode-time version, optional run and header fields, auxiliary info, existing index boxes, extra boxes) and every rewriting option and loop count",
  "The tests compare a few served segments byte-wise for one layout; offsets only break for particular layouts combined with decode times that force a box to grow.",
  [D+"mediasegmentfilter.py", D+"mp4filter.py", D+"structops.py"],
  [("box tree filter with size fix-up", D+"mp4filter.py:MP4Filter.filter_box"), ("data offset correction", D+"mediasegmentfilter.py:process_trun,process_saio"), ("segment index creation", D+"mediasegmentfilter.py:create_sidx,finalize"), ("brand rewriting", D+"mediasegmentfilter.py:process_styp")],
  ["bytes of served media segments"])
p("C04", "The number-based manifest and the segment server agree",
  "At every moment, the segments that a client computes from the manifest (availability start, period start, start number, duration, presentation time offset, buffer depth, time offset, presentation duration) as available are served at that very moment, and the first segment the manifest says is not yet available is refused. Each served segment's decode time equals the media time the manifest assigns to that number.",
  ["inputs", "configurations", "histories"], "every time and every combination of start, stop, duration, start number, time offset, buffer depth, availability offset and period options",
  "Tests check the manifest and the segment server separately with hand-computed constants for a few times; agreement is a relation between two replies that must hold at all times for all options.",
  [D+"mpd_proxy.py", D+"mpdprocessor.py", D+"dash_proxy.py", D+"configprocessor.py"],
  [("period data generation", D+"mpd_proxy.py:generate_period_data"), ("manifest attributes", D+"mpdprocessor.py:update_periods,process_mpd"), ("segment lookup", D+"dash_proxy.py:process_media_segment")],
  ["manifest XML together with segment replies at the same time"])
p("C05", "Segment timelines list exactly the available segments, exactly",
  "A segment timeline in a manifest lists, for each adaptation set, precisely the consecutive segments from the one covering the start of the time-shift window (or of the period) to the last one completed (and past its nominal end) at the time of the request, never more, never fewer, none twice, with exact start times and durations in the track's timescale across loop wraps and irregular durations. Each listed time, when requested by time or by the corresponding number before media ends for good, is served at that moment and the segment has exactly the listed decode time and duration. If nothing is complete yet the timeline is empty and the manifest is still served.",
  ["inputs", "configurations", "histories"], "every time, buffer depth, loop length, irregular duration table, timescale, start time, start number, time offset and period layout",
  "Tests verify a few instants of one content (hour-long loop, one audio and one video table); wraps inside the window, single-entry tables, and boundary instants are an unbounded family.",
  [D+"segtimeline.py", D+"mpdprocessor.py", D+"dash_proxy.py"],
  [("window to entry search and wrap handling", D+"segtimeline.py:SegmentTimeLineGenerator.create_segtimeline"), ("window per period", D+"mpdprocessor.py:update_periods"), ("time to number lookup", D+"dash_proxy.py:process_media_segment")],
  ["expanded SegmentTimeline of the manifest; replies to t<time>.m4s and <number>.m4s"])
p("C06", "Segment timelines only move forward as time passes",
  "Between any two manifest requests of the same stream at increasing times, the expanded timeline of each adaptation set changes only by appending segments at the end and dropping segments from the start: a segment keeps its number, start time and duration for as long as it is listed, and no segment is ever skipped. In the number-addressed variant the announced start number advances by exactly the number of dropped segments.",
  ["histories", "configurations"], "every sequence of manifest requests at non-decreasing times, across loop wraps",
  "No test compares two manifests of one stream at different times; the guarantee is about histories of replies.",
  [D+"segtimeline.py", D+"mpdprocessor.py"],
  [("timeline generation from absolute time", D+"segtimeline.py:create_segtimeline"), ("start number of the timeline", D+"segtimeline.py:get_seg_number")],
  ["sequence of manifests of one stream"])
p("C07", "Multi-period manifests tile time without gaps and stay stable",
  "With n periods per hour, the manifest lists exactly the consecutive periods that overlap the interval from the start of the time-shift window to half a period ahead, each starting at a multiple of the period length with an identifier, start number and presentation time offset determined by that start alone, so that media continues seamlessly from one period to the next and a period keeps its identity for as long as it is listed. Early-terminated periods, callback events, continuity signalling and explicit period durations appear in exactly the periods selected by their per-hour rates (callbacks addressing the service beside the content), and per-hour rates that do not divide the period rate, or unsupported period rates, are refused.",
  ["inputs", "configurations", "histories"], "every time, period rate (incl. 0), buffer depth, segment duration, early-termination/callback/continuity option and timeline mode",
  "Tests evaluate two instants per feature with one content; tiling and identity must hold for all times and rate combinations.",
  [D+"mpd_proxy.py", D+"mpdprocessor.py"],
  [("period list computation", D+"mpd_proxy.py:generate_period_data"), ("per-period attributes and event streams", D+"mpdprocessor.py:update_periods")],
  ["Period elements of the manifest"])
p("C08", "Remote periods and ad insertion replace exactly the selected periods",
  "With m remote periods per hour, exactly the periods selected by the rate are replaced in the manifest by remote references, all other periods are unchanged, and fetching a referenced own period at that time yields precisely the period element that was replaced. In ad-insertion modes the first selected period stays in place, kept periods carry an asset identifier, a period preceding a selected one states its duration, and the references point to the ad service variant selected by the mode.",
  ["inputs", "configurations"], "every time, period rate, remote rate and ad mode",
  "Tests count substrings in one manifest per mode at one instant; whether each period is replaced or kept correctly at all times, and equality of the fetched period, is never checked.",
  [D+"mpd_proxy.py"],
  [("xlink substitution and period extraction", D+"mpd_proxy.py:generate_response_with_xlink"), ("ad frequency and explicit durations", D+"mpd_proxy.py:generate_period_data"), ("asset identifiers", D+"mpd_proxy.py:insert_asset_identifier")],
  ["Period elements of the manifest and the reply to <manifest>+<period>.period"])
p("C09", "Time-limited sessions announce and enforce their end",
  "In a session with a start time and one or more durations, the manifest announces the currently known end (end time and total duration), switching to the next longer end once the current end is less than two update periods away, never moving the end backwards. The very last segment, and only it, is marked as last, numbers beyond it are never served, and all media stays refused from one minute after the announced end. With a stop time the manifest announces the full duration up front and turns static once the stop time has passed.",
  ["inputs", "configurations", "histories"], "every start, duration list, update period, stop time, start number, current time and segment number",
  "Tests check four instants of one two-duration session; monotone ends and exact last-segment marking hold over all times and numbers.",
  [D+"configprocessor.py", D+"dash_proxy.py", D+"mpd_proxy.py", D+"mediasegmentfilter.py"],
  [("end-time selection", D+"configprocessor.py:Config.update_with_aet,process_start_time"), ("last segment check and lmsg", D+"dash_proxy.py:process_media_segment"), ("last-segment brand", D+"mediasegmentfilter.py:process_styp"), ("static switch", D+"mpd_proxy.py:generate_dynamic_mpd")],
  ["manifest attributes over time; replies and brands of segments"])
p("C10", "Relative start/stop URLs are pinned to one fixed session",
  "A manifest requested with start or stop times relative to now carries a location whose path has these options replaced by the absolute session start and stop and everything else unchanged, and no base URL. Requesting that location at any later time describes the same session (same availability start, stop, durations, media) as the original request did.",
  ["inputs", "histories", "configurations"], "every relative start/stop (positive or negative), current time, other options, and any number of later manifest updates",
  "One test looks at a single location string; that following the location later gives the same session is a property of request histories.",
  [D+"mpdprocessor.py", D+"configprocessor.py", D+"mpd_proxy.py"],
  [("location rewriting", D+"mpdprocessor.py:process_mpd_children"), ("relative options", D+"configprocessor.py:process_url")],
  ["Location element; manifest obtained from it later"])
p("C11", "Periodic (modulo) sessions follow the documented phase schedule",
  "With modulo x, the availability start is always the beginning of the current x-minute period (of the next one in its final tenth), the announced duration grows through 20, 40, 60 and 80 percent of the period at 10, 30 and 50 percent of elapsed time, and the end time is the start plus that duration plus one update period of five percent. Within a period the announced end never moves backwards, segments beyond the announced duration are refused, and the last segment of the announced duration is marked as last.",
  ["inputs", "configurations", "histories"], "every period length and every time, including phase boundaries",
  "Tests check a few instants of a ten-minute period on the helper class only, never through manifests and segments.",
  [D+"moduloperiod.py", D+"configprocessor.py", D+"dash_proxy.py"],
  [("phase computation", D+"moduloperiod.py:ModuloPeriod"), ("application to the session", D+"configprocessor.py:update_with_modulo_period")],
  ["manifest attributes and segment replies over time"])
p("C12", "Initialization segments are served in time, live, and otherwise unchanged",
  "An initialization segment is served exactly from the availability start minus the requested advance onwards, without any end. It is the stored one with the movie, track and media durations set to zero and every other byte unchanged, for all header versions.",
  ["inputs", "configurations"], "every time, start time, advance, and stored header layout (32- and 64-bit headers, extra boxes, several track features)",
  "Tests cover one stored layout; both header versions, extra boxes and the exact availability edge are not covered.",
  [D+"initsegmentfilter.py", D+"dash_proxy.py", D+"mp4filter.py"],
  [("duration zeroing", D+"initsegmentfilter.py:InitLiveFilter"), ("availability", D+"dash_proxy.py:get_init")],
  ["reply bytes of init requests"])
p("C13", "Simulated server outages follow their up/down schedule exactly",
  "With several base URLs the manifest lists one base URL per schedule, in order, each carrying exactly its own schedule and the stream's availability offset. A base URL with a schedule refuses media exactly while its schedule says down within each minute and otherwise answers as the stream without a schedule would; at the last up second before a down phase, the served segment additionally carries one end-of-stream event message stamped with the current time.",
  ["inputs", "configurations", "histories"], "every second of the minute, every pair of up/down durations and both phase orders",
  "Tests check two instants per order; exactness at every second and phase repetition is not covered.",
  [D+"dash_proxy.py", D+"mpdprocessor.py", D+"mediasegmentfilter.py"],
  [("schedule evaluation", D+"dash_proxy.py:get_media"), ("base URL list", D+"mpdprocessor.py:process_mpd_children"), ("event message", D+"mediasegmentfilter.py:create_emsg,finalize")],
  ["segment replies over the seconds of a minute; BaseURL elements"])
p("C14", "Simulated segment loss freezes the manifest during the outage",
  "With segment-loss signalling and an up/down schedule, in a stream of unlimited duration the manifest during a down phase equals the one at the last up second (no new segment is listed and its publish time stands still), and outside down phases it equals the ordinary manifest of the current time. At the last up second, and only then, every adaptation set announces the in-band event stream, and the profile is switched from simple to main.",
  ["inputs", "configurations", "histories"], "every second of the minute, every schedule, every timeline content",
  "Tests check a few instants of one schedule; the freeze is a statement about all times of all schedules.",
  [D+"mpd_proxy.py", D+"mpdprocessor.py"],
  [("schedule evaluation and frozen time", D+"mpd_proxy.py:get_mpd"), ("inband event stream and profile", D+"mpdprocessor.py:update_periods,process_mpd")],
  ["manifest over the seconds of a minute"])
p("C15", "Every scheduled ad splice is announced in time, consistently, in video only",
  "With n splices per minute, every splice of the schedule (n=1: at second 10; n=2: 10 and 40; n=3: 10, 36 and 46) is announced by an event message at the start of exactly those video segments whose closed interval contains the instant 6 or 8 seconds before the splice, the earliest matching splice winning. All announcements of one splice carry the same identifier and the same absolute splice time, expressed both relative to the segment and modulo the 33-bit clock, with a ten second break; other segments and other media types carry none, and the manifest announces the event stream and profile for video.",
  ["inputs", "configurations"], "every segment number (33-bit clock wraps included), segment duration and rate",
  "Tests check two segments of one duration; coverage of every splice and consistency between repeated announcements quantify over all segments.",
  [D+"scte35.py", D+"emsg.py", D+"mediasegmentfilter.py", D+"mpdprocessor.py"],
  [("splice schedule", D+"mediasegmentfilter.py:create_scte35box"), ("message construction", D+"scte35.py:Scte35Emsg"), ("box", D+"emsg.py:Emsg.get_box")],
  ["event message boxes in served segments; InbandEventStream and profiles in the manifest"])
p("C16", "Low-latency chunks partition the segment and are released on schedule",
  "In chunked mode a segment is delivered as a sequence of fragments whose samples, in order, are exactly the segment's samples with unchanged data, durations, flags and offsets, contiguous decode times and a common sequence number, each fragment but the last covering just reaching the chunk duration. The i-th fragment is never delivered earlier than the segment's start on the wall clock plus i chunk durations minus 100 ms, and is delivered without delay when that time has passed. The command-line tool that repackages a stored segment cuts it the same way.",
  ["inputs", "schedules", "configurations"], "every chunk duration, segment layout, request time relative to the segment, start time and number offset",
  "Tests check chunk counts for one segment; sample identity, cut positions and release instants for all request times are not covered.",
  [D+"chunker.py", W, D+"dash_proxy.py", D+"boxes.py", D+"mp4.py"],
  [("partitioning and re-encoding", D+"chunker.py:partition,chunk"), ("delivery loop", W+":application"), ("segment start", D+"dash_proxy.py:process_media_segment")],
  ["body chunks and the (simulated) clock at which each is yielded"],
  )
p("C17", "Multiplexed representations are the exact union of their parts",
  "A request for two representations joined in one path yields an initialization segment holding both tracks once under the first one's headers, and media segments with both track fragments under one movie fragment, the same number and loop position for both, whose data offsets address, in one media data box, exactly the samples and auxiliary information that the two single segments deliver. Availability and marking rules are those of the single representations.",
  ["inputs", "configurations"], "every pair of representations and stored layouts, loop counts forcing wider decode times, and all times",
  "Tests mux one pair of stored files; offsets in other layouts and after rewriting are not checked.",
  [D+"segmentmuxer.py", D+"dash_proxy.py"],
  [("init multiplexing", D+"segmentmuxer.py:MultiplexInits"), ("sample level multiplexing", D+"segmentmuxer.py:MultiplexMediaSegments.mux_on_sample_level")],
  ["reply bytes for <rep1>__<rep2> paths"])
p("C18", "Byte-range requests return exactly the requested bytes",
  "For a satisfiable single byte range (first-last, first-, or suffix) the reply is 206 with exactly those bytes of the full reply, the last position clamped to the end, and a content range that states the true first, last and total length; concatenating ranges that cover the resource reproduces it. A range the server does not honour (malformed, unsatisfiable or several ranges) yields the complete 200 reply, never a failure or a misleading 206.",
  ["inputs"], "every range header against every resource and length",
  "No existing test sends a range header.",
  [W], [("range evaluation", W+":handle_byte_range"), ("status and header selection", W+":application")],
  ["status, Content-Range, Content-Length and body"])
p("C19", "Replies depend only on the request, the clock and the stored content",
  "The reply to a request is a function of the request, the current time and the files as they are at that time: it is the same whatever requests, successful or failing, preceded it or run interleaved with it, in whatever order, and in a fresh server process. In particular no request changes options, manifests, segments or headers seen by another one, and a change of the stored content takes effect with the next request.",
  ["histories", "schedules", "inputs"], "every sequence and interleaving of requests (chunked deliveries included) of any kind and every point of a content update",
  "Each test builds fresh objects and issues one or two requests; leakage between requests shows only in particular histories.",
  [W, D+"configprocessor.py", D+"dash_proxy.py", D+"mpd_proxy.py", D+"mpdprocessor.py"],
  [("per-request provider and configuration", D+"dash_proxy.py:DashProvider.__init__"), ("per-request header dictionary", W+":start_reply")],
  ["complete replies of a long-lived server versus a fresh one"])
p("C20", "Session-limit redirects pin a session and enforce its length",
  "With a maximum session length configured, a manifest request without a session start is redirected to the same URL with the current time and a fresh session id inserted after the prefix (scheme, host, rest of path and query unchanged), and following the redirect serves what the plain URL would. Any request carrying a session start is served until exactly the maximum length has passed (then 410), is refused if the start lies more than five seconds ahead, and non-manifest requests without one are refused; without a limit configured the session parts have no effect.",
  ["inputs", "configurations", "histories"], "every limit, time, session start, scheme, query and request kind",
  "No test exercises the session limit.",
  [W, "dashlivesim/dashlib/sessionid.py"], [("session limit and redirect", W+":application"), ("session id", D+"sessionid.py:generate_session_id")],
  ["status, Location and body"])
p("C21", "Subtitle segments are retimed to the live timeline",
  "In subtitle segments every begin and end time of the stored cue is shifted by the same whole-loop offset as the segment's decode time with its sub-second part intact, the clock text shows the corresponding UTC time and the segment text shows the live segment number, everything else being unchanged. The sample and box sizes describe the new text exactly.",
  ["inputs", "configurations"], "every segment number and loop count, including hour counts with more than two digits, any number of cues, and text lengths that change",
  "Tests retime one stored segment once.",
  [D+"ttml_timing_offset.py", D+"mediasegmentfilter.py"], [("text retiming", D+"ttml_timing_offset.py:adjust_ttml_content"), ("size fix-up", D+"mediasegmentfilter.py:process_tfhd,update_ttml_mdat")],
  ["reply bytes of subtitle segments"])
p("C22", "The manifest states the stream's configuration faithfully",
  "Every manifest states exactly the configuration selected by its URL and the content: type, availability start, publish time, update period (absent or default when none applies, zero for timelines), buffer depth, suggested delay, presentation duration, availability offset and completeness on the base URL or templates, base URL equal to the request path up to the content, UTC timing sources in the requested order, low-latency service description and profiles. Everything in the stored manifest that the stream does not redefine is preserved, and children of the manifest and of its parts appear in the standard's order. An option written with a value that asks for nothing (zero, a negative offset) is as good as absent.",
  ["inputs", "configurations"], "every combination of manifest-level options, hosts, schemes, prefixes and stored manifests",
  "Tests grep a few attributes for single options.",
  [D+"mpdprocessor.py", D+"mpd_proxy.py", D+"configprocessor.py", D+"timeformatconversions.py"],
  [("manifest attributes", D+"mpdprocessor.py:process_mpd"), ("manifest children", D+"mpdprocessor.py:process_mpd_children"), ("option parsing", D+"configprocessor.py:process_url"), ("time formatting", D+"timeformatconversions.py")],
  ["manifest XML"])
p("C23", "URL options act independently of their order",
  "Any permutation of distinct options in a URL yields the same stream: the same segments with the same availability, and manifests that differ only where they quote the URL itself. Options given as session markers have no effect on the stream, unknown or inconsistent options (both start and modulo, continuous with 32-bit restart, non-numeric values, unknown timing methods) are refused with an explanation instead of being ignored, and a path part is only treated as an option if it precedes the content name and has a known key.",
  ["inputs", "configurations"], "every subset and permutation of options with arbitrary values",
  "Tests use one fixed order and only valid options.",
  [D+"configprocessor.py"], [("option loop and post-processing", D+"configprocessor.py:ConfigProcessor.process_url")],
  ["replies for permuted URLs"])
p("C24", "Analyzing VoD content yields a configuration that serves it exactly",
  "For any valid VoD content, the analyzer writes a configuration with the first number, count and duration of the segments, the representations and timescale per media type, and a duration table that, expanded, gives exactly each stored segment's number, start time and duration. Serving the content with the written files loops exactly the stored segments; content with missing segments, mixed timescales, or too much duration drift is rejected.",
  ["inputs", "configurations"], "every valid content: first numbers, counts, timescales, duration patterns, several representations and media types",
  "No test runs the analyzer.",
  ["dashlivesim/vodanalyzer/dashanalyzer.py", "dashlivesim/vodanalyzer/mpdprocessor.py", D+"configprocessor.py", D+"mediasegmentfilter.py"],
  [("segment scan and run-length table", "dashlivesim/vodanalyzer/dashanalyzer.py:checkAndUpdateMediaData"), ("configuration writing", D+"configprocessor.py:VodConfig.write_config")],
  ["written .cfg and .dat files; replies of a server using them"])
p("C25", "Caption insertion adds the right captions and nothing else",
  "Inserting captions into content produces, for exactly the segments covering a caption time, a new segment in which each caption packet is inserted once, in time order, into the sample that covers its time, in front of that sample's first picture unit. All sample sizes, offsets and box sizes describe the enlarged samples, all other data is unchanged, and removing the inserted units gives back the stored segment.",
  ["inputs", "configurations"], "every caption file (any order, several captions per sample, long captions, both fields) and stored segment layout (segments without sample sizes in their track runs are refused, and nothing is written for them)",
  "No test runs the caption inserter.",
  ["dashlivesim/cc_inserter/cc_inserter.py"], [("sample mapping", "dashlivesim/cc_inserter/cc_inserter.py:CCInsertFilter"), ("caption parsing", "dashlivesim/cc_inserter/cc_inserter.py:SCCParser"), ("unit construction", "dashlivesim/cc_inserter/cc_inserter.py:generate_data")],
  ["written segments"])
p("C26", "Thumbnails follow the same looping and availability as media",
  "A thumbnail request for number n (or for the media time of n) is answered with the stored image at n's position in the endless loop exactly during the time window in which media segment n would be served, and refused with an explanation outside it.",
  ["inputs", "configurations"], "every number, time, start time, start number and buffer depth",
  "No test requests a thumbnail.",
  [D+"dash_proxy.py"], [("thumbnail lookup", D+"dash_proxy.py:process_thumbnail,get_media")],
  ["replies to .jpg requests"])
p("C27", "Every request gets one complete, explicit HTTP reply",
  "Any request path, however malformed, yields exactly one status line out of 200, 206, 302, 404 or 410 with the matching content type, cross-origin and no-cache headers, and a body whose length equals the stated content length; refusals are 404 with a non-empty plain-text explanation, and nothing makes the server fail or hang. A request for something that is not stored or not addressed properly is never answered with success.",
  ["inputs", "fault_sequences"], "every path, option value, header combination, and missing or unreadable stored file",
  "Tests call internal functions with valid input and never look at the HTTP level.",
  [W, D+"dash_proxy.py"], [("exception containment and reply construction", W+":application,start_reply,get_mime_type")],
  ["status line, headers and body at the HTTP interface"])
p("C28", "Short-lived restart modes keep time values small and sessions consistent",
  "In 32-bit restart mode the stream restarts every three hours: availability start, end, duration and update period state the current three-hour window, and all decode times of served segments stay below 2^32 in 32-bit form for content stored that way. In continuous-update mode the availability start follows the clock, one to two segment durations behind, always on a segment boundary with three-hour end and duration.",
  ["inputs", "configurations", "histories"], "every time, including the window edges",
  "Tests check one instant.",
  [D+"configprocessor.py", D+"mediasegmentfilter.py"], [("restart window", D+"configprocessor.py:update_for_tfdt32"), ("continuous update", D+"configprocessor.py:update_for_cont_update"), ("decode time width", D+"mediasegmentfilter.py:process_tfdt")],
  ["manifest attributes and segment decode times"])
p("C29", "No request reaches files outside the content and configuration folders",
  "Whatever the path of a request, the server only opens content below the content root and configuration below the configuration root, and no reply carries bytes of any other file.",
  ["inputs"], "every request path, including dot segments, empty segments, encoded characters and absolute-looking parts, in any position",
  "No test sends a hostile path.",
  [D+"dash_proxy.py", D+"mpd_proxy.py", D+"configprocessor.py"], [("path construction", D+"dash_proxy.py:filter_media_segment,process_init_segment,process_thumbnail,get_trex_data"), ("configuration lookup", D+"configprocessor.py:process_url")],
  ["files opened while a request is served; reply bodies"])
p("C30", "Generated subtitle content is complete, well-formed and on time",
  "The subtitle content generator writes one initialization segment and the requested number of media segments; segment k starts at (k-1) times the segment duration, has that duration, the requested track and language, and holds cues that tile exactly its interval at the requested resolution with text naming the language and cue time. All box and sample sizes match the content, so that the segments can be analyzed and looped by the server like any other.",
  ["inputs", "configurations"], "every segment duration, count, resolution, language, track id and name format",
  "No test runs the generator.",
  [D+"stpp_generator/make_stpp_segments.py", D+"stpp_generator/stpp_creator.py"], [("segment and cue creation", D+"stpp_generator/make_stpp_segments.py:SegmentCreator.create_segments"), ("box templates", D+"stpp_generator/stpp_creator.py:StppMediaFilter,StppInitFilter")],
  ["written files"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
