From 4a5c44a2eceb257f8c7ede3cd99e46895fab0531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:52 +0000
Subject: [PATCH 01/64] fix: segment timelines list exactly the available
 segments

The latest segment starting at or before a time was looked up one segment
too early at exact boundaries and beyond the repeats of its entry, and the
repeat counts were wrong when the listed interval wraps around the loop of
a table whose first and last listed entry are the same.
---
 dashlivesim/dashlib/segtimeline.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index cf7640b..c822364 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -119,7 +119,7 @@ class SegmentTimeLineGenerator(object):
         while repeat_index != start_index or nr_wraps != start_wraps:
             seg_data = self.segtimedata[repeat_index]
             # print(repeat_index, start_index, nr_wraps, start_wraps)
-            if repeat_index == end_index:
+            if repeat_index == end_index and nr_wraps == end_wraps:
                 s_elem = self.generate_s_elem(None, seg_data.duration, end_repeats)
             else:
                 s_elem = self.generate_s_elem(None, seg_data.duration, seg_data.repeats)
@@ -131,11 +131,8 @@ class SegmentTimeLineGenerator(object):
         # Now at first entry corresponding to start_index and start_wraps
         seg_data = self.segtimedata[start_index]
         seg_start_time = self.get_seg_starttime(nr_wraps, start_index, start_repeats)
-        if start_index != end_index:
+        if start_index != end_index or start_wraps != end_wraps:
             nr_repeats = seg_data.repeats - start_repeats
-        elif len(self.segtimedata) == 1 and end_repeats < start_repeats:
-            nr_repeats = (self.segtimedata[0].repeats + end_repeats -
-                          start_repeats)
         else:  # There was only one entry which was repeated
             nr_repeats = end_repeats - start_repeats
         s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
@@ -169,7 +166,7 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         repeats = 0
         accumulated_end_time = seg_data.start_time + seg_data.duration
-        while accumulated_end_time < rel_time:
+        while accumulated_end_time <= rel_time and repeats < seg_data.repeats:
             accumulated_end_time += seg_data.duration
             repeats += 1
         return index, repeats, nr_wraps
@@ -196,7 +193,7 @@ class SegmentTimeLineGenerator(object):
         if index >= len(self.interval_starts):
             index = 0
             nr_wraps += 1
-        return index, self.segtimedata[index].repeats, nr_wraps
+        return index, 0, nr_wraps
 
     def find_closest_end(self, act_time):
         "Find "
-- 
2.43.0


From 4a76f8dc18576fe41d6f722a33e71736c3237cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 02/64] fix: serve an empty segment timeline while no segment
 is available

The timeline generator returned a tuple of None (or raised) before the
first segment was complete, so that no manifest could be served.
---
 dashlivesim/dashlib/segtimeline.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index c822364..718f01e 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -79,9 +79,17 @@ class SegmentTimeLineGenerator(object):
         # The start segment is the latest one that starts before or at start
         # The end segment is the latest one that ends before or at end.
 
+        if use_closest:
+            result = self.find_closest_start(start)
+        else:
+            result = self.find_latest_starting_before(start)
+        (start_index, start_repeats, start_wraps) = result
+        # Number of the first segment of the window, also when nothing of it is available yet
+        self.start_number = self.get_seg_number(start_wraps, start_index, start_repeats)
+
         (end_index, end_repeats, end_wraps) = self.find_latest_starting_before(end)
         if end_index is None:
-            raise SegmentTimeLineGeneratorError("No end_index for %d %d. Before AST" % (start_time, end_time))
+            return seg_timeline  # Before AST: nothing available yet
         end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
         # print("end_time %d %d" % (end, end_tics))
 
@@ -96,17 +104,12 @@ class SegmentTimeLineGenerator(object):
                 end_index = len(self.segtimedata) - 1
                 end_repeats = self.segtimedata[end_index].repeats
                 if (end_wraps < 0):
-                    return (None, None, None)
+                    return seg_timeline  # No segment has ended yet
             end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
 
         # print "end_time2 %d %d %d" % (end, end_tics, (end-end_tics)/(self.timescale*1.0))
         # print "end time %d %d %d" % (end_index, end_repeats, end_wraps)
 
-        if use_closest:
-            result = self.find_closest_start(start)
-        else:
-            result = self.find_latest_starting_before(start)
-        (start_index, start_repeats, start_wraps) = result
         # print("start %d %d %d" % (start_index, start_repeats, start_wraps))
         start_tics = self.get_seg_starttime(start_wraps, start_index, start_repeats)
         start_tics_end = self.get_seg_starttime(end_wraps, end_index, end_repeats)
@@ -137,8 +140,6 @@ class SegmentTimeLineGenerator(object):
             nr_repeats = end_repeats - start_repeats
         s_elem = self.generate_s_elem(seg_start_time, seg_data.duration, nr_repeats)
         seg_timeline.insert(0, s_elem)
-        self.start_number = self.get_seg_number(nr_wraps, start_index,
-                                                start_repeats)
         return seg_timeline
 
     def get_seg_starttime(self, nr_wraps, index, repeats):
-- 
2.43.0


From 5c0833f180a27ebccbe7e52dc6f8ccbfa4fb82b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 03/64] fix: segment timelines for all analyzed media types of
 the content

Content lacking video or audio, or having subtitles with a duration table,
could not get any segment timeline.
---
 dashlivesim/dashlib/mpdprocessor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index a6bfa36..82b8859 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -310,9 +310,9 @@ class MpdProcessor(object):
                                                elem_id=None, messageData=BaseURLSegmented)
         if self.segtimeline or self.segtimeline_nr:
             segtimeline_generators = {}
-            for content_type in ('video', 'audio'):
-                segtimeline_generators[content_type] = SegmentTimeLineGenerator(self.cfg.media_data[content_type],
-                                                                                self.cfg)
+            for content_type, media_data in self.cfg.media_data.items():
+                if 'dat_file' in media_data:
+                    segtimeline_generators[content_type] = SegmentTimeLineGenerator(media_data, self.cfg)
         periods = mpd.findall(add_ns('Period'))
         BaseURL = mpd.findall(add_ns('BaseURL'))
         if len(BaseURL) > 0:
-- 
2.43.0


From d62b269c2b8c715817c7f7898aee7028390ab2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 04/64] fix: respect start number and time offset in timelines,
 periods and time-based requests

Segments addressed by time, the start number of number-addressed timelines
and the start numbers of multiple periods ignored the start number option,
and timelines ignored the time offset unless the session had a stop time.
---
 dashlivesim/dashlib/configprocessor.py | 7 ++++++-
 dashlivesim/dashlib/dash_proxy.py      | 3 ++-
 dashlivesim/dashlib/mpd_proxy.py       | 4 ++--
 dashlivesim/dashlib/mpdprocessor.py    | 9 ++++++---
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 10353bc..293ebad 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -235,6 +235,11 @@ class Config(object):
                          // self.seg_duration)
         return start_nr
 
+    @property
+    def first_number(self):
+        "Number of the first segment (start number -1 stands for the default value 1)."
+        return 1 if self.start_nr == -1 else self.adjusted_start_number
+
     def adjusted_pto(self, pto, timescale):
         if self.timeoffset is not None:
             return pto + (self.availability_start_time_in_s -
@@ -246,7 +251,7 @@ class Config(object):
     def stop_number(self):
         if self.stop_time is None:
             return None
-        start = self.adjusted_start_number
+        start = self.first_number
         return start + self.media_presentation_duration // self.seg_duration
 
 
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4b354a0..4145b29 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -231,9 +231,10 @@ def process_media_segment(dashProv, now_float, chunk):
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        seg_nr += cfg.first_number - cfg.adjusted_pto(0, 1) // seg_dur  # Number of segment at media time 0
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.adjusted_start_number
+    seg_start_nr = cfg.first_number
     if seg_nr < seg_start_nr:
         return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
     stop_number = cfg.stop_number
diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4d9c43e..6be6e04 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -221,7 +221,7 @@ def generate_period_data(mpd_data, now, cfg):
         period_data.append(data)
     elif nr_periods_per_hour == 0:  # nrPeriodsPerHour == 0, make one old period but starting 1000h after AST
         start = 3600 * 1000
-        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (start // seg_dur),
+        data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (cfg.first_number + start // seg_dur),
                 'duration': seg_dur, 'presentationTimeOffset': "%d" % start, 'start_s': start}
         period_data.append(data)
     else:  # nr_periods_per_hour > 0
@@ -240,7 +240,7 @@ def generate_period_data(mpd_data, now, cfg):
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
             data = {'id': "p%d" % period_nr, 'start': 'PT%dS' % start_time,
-                    'startNumber': "%d" % (start_time//seg_dur), 'duration': seg_dur,
+                    'startNumber': "%d" % (cfg.first_number + start_time//seg_dur), 'duration': seg_dur,
                     'presentationTimeOffset': period_nr*period_duration,
                     'start_s': start_time}
             if mpd_data['etpPeriodsPerHour'] > 0:
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 82b8859..0d510a6 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -377,8 +377,9 @@ class MpdProcessor(object):
                             end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], now)
                         else:
                             end_time = now
-                        start_time -= self.cfg.availability_start_time_in_s
-                        end_time -= self.cfg.availability_start_time_in_s
+                        media_time_at_ast = self.cfg.adjusted_pto(0, 1)
+                        start_time += media_time_at_ast - self.cfg.availability_start_time_in_s
+                        end_time += media_time_at_ast - self.cfg.availability_start_time_in_s
                         use_closest = False
                         if self.cfg.stop_time and self.cfg.timeoffset == 0:
                             start_time = self.cfg.start_time
@@ -398,9 +399,11 @@ class MpdProcessor(object):
                             remove_attribs(seg_template, ['startNumber'])
                         elif self.segtimeline_nr:
                             # Set number to the first number listed
+                            start_number = (segtime_gen.start_number + self.cfg.first_number -
+                                            media_time_at_ast // self.cfg.seg_duration)
                             set_attribs(seg_template,
                                         ('startNumber',),
-                                        {'startNumber': segtime_gen.start_number})
+                                        {'startNumber': start_number})
                         seg_template.set('media', media_template)
                         seg_template.text = "\n"
                         seg_template.insert(0, seg_timeline)
-- 
2.43.0


From 46764c3d801e93bddd53e0cdedc8751424d9948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 05/64] fix: count the last segment of limited sessions from
 the first number

The last segment number of modulo sessions was counted from the epoch, and
that of sessions with durations ignored the start number and time offset, so
that segments beyond the end were served and none (or a wrong one) was
marked as last.
---
 dashlivesim/dashlib/configprocessor.py | 4 ++--
 dashlivesim/dashlib/dash_proxy.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 293ebad..da62da8 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -73,7 +73,7 @@ class Config(object):
         self.minimum_update_period_in_s = None
         self.chunk_duration_in_s = None
         self.modulo_period = None
-        self.last_segment_numbers = []  # The last segment number in every period.
+        self.last_segment_numbers = []  # The last segment number in every period (relative to the first one).
         self.init_seg_avail_offset = 0  # The number of secs before AST that one can fetch the init segments
         self.tfdt32_flag = False  # Restart every 3 hours make tfdt fit into 32 bits.
         self.cont = False  # Continuous update of MPD AST and seg_nr.
@@ -170,7 +170,7 @@ class Config(object):
         self.availability_start_time_in_s = modulo_period.availability_start_time
         self.media_presentation_duration = modulo_period.media_presentation_duration
         self.availability_end_time = modulo_period.availability_end_time
-        self.last_segment_numbers.append(modulo_period.calc_last_segment_number(seg_dur))
+        self.last_segment_numbers.append(int(modulo_period.media_presentation_duration // seg_dur) - 1)
 
     def update_with_aet(self, now_int, availability_end_times, media_presentation_durations):
         "Find the proper availabilityEndTime and mediaPresentation duration for now and set in cfg."
diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4145b29..8f3adc5 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -241,10 +241,10 @@ def process_media_segment(dashProv, now_float, chunk):
     if stop_number and seg_nr >= stop_number:
         return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = cfg.last_segment_numbers[-1] + seg_start_nr
         if seg_nr > very_last_segment:
             return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
-    lmsg = seg_nr in cfg.last_segment_numbers
+    lmsg = seg_nr - seg_start_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     timescale = 1
     media_time_at_ast = cfg.adjusted_pto(0, timescale)
-- 
2.43.0


From 28251eafee75a0352f5b5d61bb0b7b7574d83a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 06/64] fix: announce the presentation duration in the last
 phase of a session

Once the last end of a session with durations was less than two update
periods away, its duration disappeared from the manifest.
---
 dashlivesim/dashlib/configprocessor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index da62da8..17ba85b 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -178,6 +178,7 @@ class Config(object):
         media_presentation_duration = None
         if len(availability_end_times) > 0:
             end_time = availability_end_times[-1]
+            media_presentation_duration = media_presentation_durations[-1]
             for aet, media_pre_dur in zip(availability_end_times[::-1], media_presentation_durations[::-1]):
                 if now_int > aet - 2*self.minimum_update_period_in_s:
                     break
-- 
2.43.0


From 1f8037c951b48450a0b21009193f025bc44b008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 07/64] fix: release low-latency chunks relative to the
 availability start

The start of a chunked segment was taken as time since the availability
start instead of wall-clock time, so chunks were not held back for streams
with a start time, start number or time offset.
---
 dashlivesim/dashlib/dash_proxy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 8f3adc5..4180214 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -273,11 +273,11 @@ def process_media_segment(dashProv, now_float, chunk):
             trex_data = get_trex_data(dashProv, rel_path)
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg, trex_data)
-            # Here we shall return seg_time (when the segment start to be produced)
-            # and then each chunk should be delivered at seg_time + (i+1) * chunk_dur
+            # Here we shall return the wall-clock time (when the segment start to be produced)
+            # and then each chunk should be delivered at that time + (i+1) * chunk_dur
             dur = int(cfg.chunk_duration_in_s * cfg.reps[0]['timescale'])
             chunks = [chk for chk in chunker.chunk(seg_content, dur, trex_data)]
-            return ChunkedSegment(seg_time, chunks)
+            return ChunkedSegment(seg_ast - seg_dur, chunks)
         else:
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg)
-- 
2.43.0


From 5ccd6bbadf3b304f7329a0814c3b0183199187af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 08/64] fix: serve thumbnails exactly when the media segments
 are available

Refusals failed (404 with a Python error), and the start number, time
offset and stop time of the stream were ignored.
---
 dashlivesim/dashlib/dash_proxy.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 4180214..906fd05 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -349,15 +349,19 @@ def process_thumbnail(dashProv, now_float):
     if seg_base[0] == 't':
         # TODO. Make a more accurate test here that the timestamp is a correct one
         seg_nr = int(round(float(seg_base[1:]) / seg_dur / timescale))
+        seg_nr += cfg.first_number - cfg.adjusted_pto(0, 1) // seg_dur
     else:
         seg_nr = int(seg_base)
-    seg_start_nr = cfg.start_nr == -1 and 1 or cfg.start_nr
+    seg_start_nr = cfg.first_number
     if seg_nr < seg_start_nr:
-        return error_response("Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+        return error_response(dashProv, "Request for segment %d before first %d" % (seg_nr, seg_start_nr))
+    stop_number = cfg.stop_number
+    if stop_number and seg_nr >= stop_number:
+        return error_response(dashProv, "Beyond last segment %d" % stop_number)
     if len(cfg.last_segment_numbers) > 0:
-        very_last_segment = cfg.last_segment_numbers[-1]
+        very_last_segment = cfg.last_segment_numbers[-1] + seg_start_nr
         if seg_nr > very_last_segment:
-            return error_response("Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
+            return error_response(dashProv, "Request for segment %d beyond last (%d)" % (seg_nr, very_last_segment))
     # lmsg = seg_nr in cfg.last_segment_numbers
     # print cfg.last_segment_numbers
     seg_time = (seg_nr - seg_start_nr) * seg_dur + cfg.availability_start_time_in_s
@@ -365,14 +369,14 @@ def process_thumbnail(dashProv, now_float):
 
     if cfg.availability_time_offset_in_s != -1:  # -1 is infinity
         if now_float < seg_ast - cfg.availability_time_offset_in_s:
-            return error_response("Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
-        if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s):
+            return error_response(dashProv, "Request for %s was %.1fs too early" % (seg_name, seg_ast - now_float))
+        if (now_float > seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s) and not stop_number:
             diff = now_float - (seg_ast + seg_dur + cfg.timeshift_buffer_depth_in_s)
-            return error_response("Request for %s was %.1fs too late" % (seg_name, diff))
+            return error_response(dashProv, "Request for %s was %.1fs too late" % (seg_name, diff))
 
-    time_since_ast = seg_time - cfg.availability_start_time_in_s
+    media_time = seg_time - cfg.availability_start_time_in_s + cfg.adjusted_pto(0, 1)
     loop_duration = cfg.seg_duration * cfg.vod_nr_segments_in_loop
-    nr_loops_done, time_in_loop = divmod(time_since_ast, loop_duration)
+    nr_loops_done, time_in_loop = divmod(media_time, loop_duration)
     seg_nr_in_loop = time_in_loop // seg_dur
     vod_nr = seg_nr_in_loop + cfg.vod_first_segment_in_loop
     assert 0 <= vod_nr - cfg.vod_first_segment_in_loop < cfg.vod_nr_segments_in_loop
-- 
2.43.0


From 68978a7543f5a57fc34e62d7da0cd0af11dc27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 09/64] fix: put the schedule of a base URL before the content
 name

The removed schedules left empty path parts behind, so the base URLs had
the schedule after the content name and double slashes, and all requests
using them failed.
---
 dashlivesim/dashlib/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 0d510a6..413bb31 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -173,7 +173,7 @@ class MpdProcessor(object):
                     key, _ = cfg_parts
                     if key == "baseurl":
                         url_parts[i] = ""  # Remove all the baseurl elements
-                url_parts = [p for p in url_parts if p is not None]
+                url_parts = [p for p in url_parts if p]
                 for url in data['urls']:
                     url_parts.insert(-1, "baseurl_" + url)
                     self.insert_baseurl(mpd, pos, url_header + "//" + "/".join(url_parts) + "/", ato, atc)
-- 
2.43.0


From bb8d5f6a6e3a40d8ff868fac7410efc5b7d74e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:01 +0000
Subject: [PATCH 10/64] fix: serve segments by time also when the
 representation path is nested

---
 dashlivesim/dashlib/dash_proxy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 906fd05..9d695fa 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -217,7 +217,7 @@ def process_media_segment(dashProv, now_float, chunk):
     def get_timescale(cfg):
         "Get timescale for the current representation."
         timescale = None
-        curr_rep_id = cfg.rel_path
+        curr_rep_id = cfg.rel_path.split("/")[-1]
         for rep in cfg.reps:
             if rep['id'] == curr_rep_id:
                 timescale = rep['timescale']
@@ -334,7 +334,7 @@ def process_thumbnail(dashProv, now_float):
     def get_timescale(cfg):
         "Get timescale for the current representation."
         timescale = None
-        curr_rep_id = cfg.rel_path
+        curr_rep_id = cfg.rel_path.split("/")[-1]
         for rep in cfg.reps:
             if rep['id'] == curr_rep_id:
                 timescale = rep['timescale']
-- 
2.43.0


From 7fab3f16371962b2d530d70e4168b33b389fc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 11/64] fix: accept a zero update period together with a start
 time

---
 dashlivesim/dashlib/configprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 17ba85b..25ee254 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -219,7 +219,7 @@ class Config(object):
     def update_publish_time(self, now_int):
         """The publishTime to be written in the MPD. Changed according to the rules:
             if availabilityStartTimeInS == DEFAULT_AVAILABILITY_STARTTIME_IN_S."""
-        if self.availability_start_time_in_s != DEFAULT_AVAILABILITY_STARTTIME_IN_S:
+        if self.availability_start_time_in_s != DEFAULT_AVAILABILITY_STARTTIME_IN_S and self.minimum_update_period_in_s:
             publish_time = quantize(now_int, self.minimum_update_period_in_s)
         else:
             publish_time = DEFAULT_AVAILABILITY_STARTTIME_IN_S
-- 
2.43.0


From 0de35fc7a4ca5d5b61bedc9de0889cd60d0d3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 12/64] fix: serve manifests with a relative start but no stop
 time

---
 dashlivesim/dashlib/mpdprocessor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 413bb31..dd63ce2 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -185,8 +185,9 @@ class MpdProcessor(object):
         if self.cfg and self.cfg.add_location and self.full_url is not None:
             loc_url = re.sub(r"/startrel_[-\d]+", "/start_%d" %
                              self.cfg.start_time, self.full_url)
-            loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
-                             self.cfg.stop_time, loc_url)
+            if self.cfg.stop_time is not None:
+                loc_url = re.sub(r"/stoprel_[-\d]+", "/stop_%d" %
+                                 self.cfg.stop_time, loc_url)
             self.insert_location(mpd, pos, loc_url)
             pos += 1
 
-- 
2.43.0


From 7625dd125c8b49f186b5ef274910fe27b482a6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 13/64] fix: end segment timelines with the last segment of a
 limited session

Timelines of sessions with a stop time, durations or modulo period went on
listing segments which the server refuses.
---
 dashlivesim/dashlib/configprocessor.py | 9 +++++++++
 dashlivesim/dashlib/mpdprocessor.py    | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index 25ee254..fe0ece6 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -255,6 +255,15 @@ class Config(object):
         start = self.first_number
         return start + self.media_presentation_duration // self.seg_duration
 
+    @property
+    def last_media_end(self):
+        "Wall-clock end of the very last segment of a limited session (None if not limited)."
+        if self.stop_time is not None:
+            return self.stop_time
+        if self.last_segment_numbers:
+            return self.availability_start_time_in_s + (self.last_segment_numbers[-1] + 1) * self.seg_duration
+        return None
+
 
 class VodConfig(object):
     "Configuration of the actual content."
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index dd63ce2..b84675c 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -373,11 +373,15 @@ class MpdProcessor(object):
                         now = self.mpd_proc_cfg['now']
                         tsbd = self.cfg.timeshift_buffer_depth_in_s
                         ast = self.cfg.availability_start_time_in_s
+                        if self.cfg.stop_time is not None:  # All segments stay available after the stop time
+                            now = min(now, self.cfg.stop_time)
                         start_time = max(ast + pdata['start_s'], now - tsbd)
                         if 'period_duration_s' in pdata:
                             end_time = min(ast + pdata['start_s'] + pdata['period_duration_s'], now)
                         else:
                             end_time = now
+                        if self.cfg.last_media_end is not None:
+                            end_time = min(end_time, self.cfg.last_media_end)
                         media_time_at_ast = self.cfg.adjusted_pto(0, 1)
                         start_time += media_time_at_ast - self.cfg.availability_start_time_in_s
                         end_time += media_time_at_ast - self.cfg.availability_start_time_in_s
-- 
2.43.0


From 21d234f4ba83ec424855a238f10de203fe5725ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 14/64] fix: place periods relative to the availability start

With a start time, the periods were chosen by the time since the epoch but
their starts are relative to the availability start.
---
 dashlivesim/dashlib/mpd_proxy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 6be6e04..4585143 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -233,15 +233,16 @@ def generate_period_data(mpd_data, now, cfg):
         minimum_update_period = "PT%dS" % minimum_update_period_s
         mpd_data['minimumUpdatePeriod'] = minimum_update_period
         # this_period_nr = now // period_duration
-        last_period_nr = (now + half_period_duration) // period_duration
+        now_rel = now - cfg.availability_start_time_in_s  # Periods start relative to AST
+        last_period_nr = max(0, (now_rel + half_period_duration) // period_duration)
         # this_period_start = this_period_nr * period_duration
-        first_period_nr = (now - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration
+        first_period_nr = max(0, (now_rel - mpd_data['timeShiftBufferDepthInS'] - seg_dur) // period_duration)
         counter = 0
         for period_nr in range(first_period_nr, last_period_nr+1):
             start_time = period_nr * period_duration
             data = {'id': "p%d" % period_nr, 'start': 'PT%dS' % start_time,
                     'startNumber': "%d" % (cfg.first_number + start_time//seg_dur), 'duration': seg_dur,
-                    'presentationTimeOffset': period_nr*period_duration,
+                    'presentationTimeOffset': mpd_data['presentationTimeOffset'] + period_nr*period_duration,
                     'start_s': start_time}
             if mpd_data['etpPeriodsPerHour'] > 0:
                 # Check whether the early terminated feature is enabled or not.
-- 
2.43.0


From aaa3071b2474b781a1d7651919741272ff57c7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 15/64] fix: answer malformed, unsatisfiable and multiple byte
 ranges in full

Several ranges gave a 206 reply without content range, a malformed range
made the server fail without reply, and a suffix longer than the resource
returned other bytes than stated.
---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index de91a39..7007dd8 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -32,6 +32,7 @@
 # Note that VOD_CONF_DIR and CONTENT_ROOT directories must be set in environment
 # For Apache mod_wsgi, this is done using setEnv
 
+import re
 import traceback
 from os.path import splitext
 from urllib.parse import urlparse, parse_qs
@@ -43,6 +44,8 @@ from dashlivesim import SERVER_AGENT
 
 MAX_SESSION_LENGTH = 0  # If non-zero,  limit sessions via redirect
 
+BYTE_RANGE = re.compile(r"\s*bytes\s*=\s*[0-9]{0,4000}\s*-\s*[0-9]{0,4000}\s*", re.IGNORECASE)  # Single range
+
 # Helper for HTTP responses
 # pylint: disable=dangerous-default-value
 
@@ -242,17 +245,15 @@ def get_mime_type(ext):
 def handle_byte_range(payload, range_line):
     """Handle byte range and return data and range-header value.
     If range is strange, return empty string."""
-    range_parts = range_line.split("=")[-1]
-    ranges = range_parts.split(",")
-    if len(ranges) > 1:
-        return (payload, None)
+    if not BYTE_RANGE.fullmatch(range_line):  # Malformed or several ranges
+        return (payload, "")
     length = len(payload)
-    range_interval = ranges[0]
-    range_start, range_end = range_interval.split("-")
+    range_interval = range_line.split("=")[-1]
+    range_start, range_end = [part.strip() for part in range_interval.split("-")]
     bad_range = False
     if range_start == "" and range_end != "":
         # This is the rangeStart lasts bytes
-        range_start = length - int(range_end)
+        range_start = max(length - int(range_end), 0)
         range_end = length - 1
     elif range_start != "":
         range_start = int(range_start)
@@ -262,7 +263,7 @@ def handle_byte_range(payload, range_line):
             range_end = length-1
     else:
         bad_range = True
-    if range_end < range_start:
+    if not bad_range and range_end < range_start:
         bad_range = True
     if bad_range:
         return (payload, "")
-- 
2.43.0


From f5171a1c2c6e81274ba2b932830e8867c4823862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 16/64] fix: answer 404 to request URIs that cannot be parsed

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 7007dd8..315aa8f 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -93,7 +93,11 @@ def application(environment, start_response):
     "WSGI Entrypoint"
 
     hostname = environment['HTTP_HOST']
-    url = urlparse(environment['REQUEST_URI'])
+    try:
+        url = urlparse(environment['REQUEST_URI'])
+    except ValueError as exc:
+        yield full_reply(404, start_response, "Bad request URI: {0}".format(exc).encode('utf-8'), {})[0]
+        return
     vod_conf_dir = environment['VOD_CONF_DIR']
     content_root = environment['CONTENT_ROOT']
     is_https = environment.get('wsgi.url_scheme', False) and environment['wsgi.url_scheme'] == 'https'
-- 
2.43.0


From c23467226413cd4bfaa97ddb43cae123f76be88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 17/64] fix: refuse request paths that leave the content
 directory

---
 dashlivesim/dashlib/configprocessor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/configprocessor.py b/dashlivesim/dashlib/configprocessor.py
index fe0ece6..6bf0ef8 100644
--- a/dashlivesim/dashlib/configprocessor.py
+++ b/dashlivesim/dashlib/configprocessor.py
@@ -125,6 +125,8 @@ class Config(object):
         self.base_url += "/".join(url_parts[:url_pos+1]) + "/"
         rel_path_parts = url_parts[url_pos+1:-1]
         self.rel_path = "/".join(rel_path_parts)
+        if ".." in url_parts[url_pos:] or self.rel_path.startswith("/"):
+            raise ConfigProcessorError("Bad path to content: %s" % "/".join(url_parts[url_pos:]))
         self.filename = url_parts[-1]
         self.ext = splitext(self.filename)[1]
 
-- 
2.43.0


From 75f11d23e4fe7ca40ade837ad92bed778fdf0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 18/64] fix: do not answer period requests with a full manifest
 without xlink

---
 dashlivesim/dashlib/mpd_proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 4585143..597e939 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -11,6 +11,8 @@ def get_mpd(dashProv):
     "Get the MPD corresponding to parameters in dashProv"
     cfg = dashProv.cfg
     if cfg.ext == ".period":
+        if cfg.xlink_periods_per_hour <= 0:
+            raise ValueError("Single periods are only available with the xlink option")
         mpd_filename = "%s/%s/%s" % (dashProv.content_dir, cfg.content_name, cfg.filename.split('+')[0])
         # Get the first part of the string only, which is the .manifest file name.
     elif cfg.ext == ".mpd":
-- 
2.43.0


From 74ec06080fb76bbe593ddba73833c11692106388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 19/64] fix: refuse media requests for more than two
 multiplexed representations

---
 dashlivesim/dashlib/dash_proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 9d695fa..98c2e4b 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -281,6 +281,8 @@ def process_media_segment(dashProv, now_float, chunk):
         else:
             seg_content = filter_media_segment(dashProv, cfg.reps[0], rel_path, vod_nr, seg_nr, seg_ext,
                                                offset_at_loop_start, lmsg)
+    elif nr_reps != 2:
+        return error_response(dashProv, "Bad nr of representations: %d" % nr_reps)
     else:
         rel_path_parts = rel_path.split("/")
         common_path_parts = rel_path_parts[:-1]
-- 
2.43.0


From ea11965fe46628906b59cf38a907874101af90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:44 +0000
Subject: [PATCH 20/64] fix: do not hang on stored files with unsupported box
 sizes

---
 dashlivesim/dashlib/mediasegmentfilter.py | 3 +--
 dashlivesim/dashlib/mp4filter.py          | 4 +++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index cb13265..c7dab42 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -388,8 +388,7 @@ class MediaSegmentFilter(MP4Filter):
         pos = 0
         output = b""
         while pos < len(data):
-            size = str_to_uint32(data[pos:pos+4])
-            boxtype = data[pos+4:pos+8]
+            size, boxtype = self.check_box(data[pos:pos+8])
             if boxtype != b'mdat':
                 output += data[pos:pos+size]
             else:
diff --git a/dashlivesim/dashlib/mp4filter.py b/dashlivesim/dashlib/mp4filter.py
index 0b5d17e..8ef4106 100644
--- a/dashlivesim/dashlib/mp4filter.py
+++ b/dashlivesim/dashlib/mp4filter.py
@@ -35,7 +35,7 @@ The filter is streamlined for DASH or other content with one track per file.
 from dashlivesim.dashlib.structops import str_to_uint32, uint32_to_str
 
 
-class MP4FilterError(BaseException):
+class MP4FilterError(Exception):
     "Error in MP4Filter or subclass."
 
 
@@ -65,6 +65,8 @@ class MP4Filter(object):
     def check_box(self, data):
         "Check the type of box starting at position pos."
         size = str_to_uint32(data[:4])
+        if size < 8:
+            raise MP4FilterError("Unsupported box size %d" % size)
         boxtype = data[4:8]
         return (size, boxtype)
 
-- 
2.43.0


From e9fc5e7797085fb2969f5cda1725cac1b7d7d68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 21/64] fix: write durations of whole days as valid ISO 8601

---
 dashlivesim/dashlib/timeformatconversions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/timeformatconversions.py b/dashlivesim/dashlib/timeformatconversions.py
index e63815c..24fc00f 100644
--- a/dashlivesim/dashlib/timeformatconversions.py
+++ b/dashlivesim/dashlib/timeformatconversions.py
@@ -62,7 +62,8 @@ def seconds_to_iso_duration(nr_secs):
     period = "P"
     if days > 0:
         period += "%dD" % days
-    period += "T"
+    if hours + rest > 0 or days == 0:
+        period += "T"
     if hours > 0:
         period += "%dH" % hours
     if minutes > 0:
-- 
2.43.0


From 096435c088de240111e397ffa274949fbb6aa9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:59 +0000
Subject: [PATCH 22/64] fix: respect the time offset also in the single offset
 period

---
 dashlivesim/dashlib/mpd_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 597e939..9e43f4b 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -224,7 +224,8 @@ def generate_period_data(mpd_data, now, cfg):
     elif nr_periods_per_hour == 0:  # nrPeriodsPerHour == 0, make one old period but starting 1000h after AST
         start = 3600 * 1000
         data = {'id': "p0", 'start': 'PT%dS' % start, 'startNumber': "%d" % (cfg.first_number + start // seg_dur),
-                'duration': seg_dur, 'presentationTimeOffset': "%d" % start, 'start_s': start}
+                'duration': seg_dur, 'presentationTimeOffset': "%d" % (mpd_data['presentationTimeOffset'] + start),
+                'start_s': start}
         period_data.append(data)
     else:  # nr_periods_per_hour > 0
         period_duration = 3600 // nr_periods_per_hour
-- 
2.43.0


From b20dfc8ad69bcfcc8e765b2b9cf501b5774444f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 23/64] fix: find xlink periods by their id and with any base
 URLs

---
 dashlivesim/dashlib/mpd_proxy.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 9e43f4b..60312fc 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -1,4 +1,4 @@
-from re import findall
+import re
 from math import ceil
 from xml.etree import ElementTree as ET
 
@@ -117,6 +117,14 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
     return mpmod.get_full_xml()
 
 
+def find_period(response, period_id):
+    "Find the start position of the period with a specific id."
+    match_obj = re.search(r'<Period\s[^>]*\bid="%s"' % re.escape(period_id), response)
+    if match_obj is None:
+        raise ValueError("No period with id %s" % period_id)
+    return match_obj.start()
+
+
 def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, nr_xlink_periods_per_hour, insert_ad):
     "Convert the normally created response into a response which has xlinks"
     # This functions has two functionality : 1.For MPD and 2.For PERIOD.
@@ -130,16 +138,16 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         period_id_all = []
         for child in root.findall('{urn:mpeg:dash:schema:mpd:2011}Period'):
             period_id_all.append(child.attrib['id'])
-        # period_id_all = findall('Period id="([^"]*)"', response)
         # Find all period ids in the response file.
         one_xlinks_for_how_many_periods = nr_periods_per_hour // nr_xlink_periods_per_hour
         period_id_xlinks = [x for x in period_id_all if int(x[1:]) % one_xlinks_for_how_many_periods == 0]
         # Periods that will be replaced with links.
-        base_url = findall('<BaseURL>([^"]*)</BaseURL>', response)
+        # Without any BaseURL, the links are relative to the manifest
+        base_url = [elem.text for elem in root.findall('{urn:mpeg:dash:schema:mpd:2011}BaseURL')] or [""]
         counter = 0
         for period_id in period_id_all:
             # Start replacing only if this condition is met.
-            start_pos_period = response.find(period_id) - 12
+            start_pos_period = find_period(response, period_id)
             # Find the position in the string file of the period that has be replaced
             end_pos_period = response.find("</Period>", start_pos_period) + 9
             # End position of the corresponding period.
@@ -186,7 +194,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
         # Second part of string has the period id.
         start_pos_xmlns = response.find("xmlns=")
         end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
-        start_pos_period = response.find(filename[:-7]) - 12
+        start_pos_period = find_period(response, filename[:-7])
         # Find the position in the string file of the period that has be replaced.
         end_pos_period = response.find("</Period>", start_pos_period) + 9
         # End position of the corresponding period.
-- 
2.43.0


From 2d2353fc4b0e4770468af93680405c2c07bf2e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 24/64] fix: serve callback events also in manifests without
 base URL

---
 dashlivesim/dashlib/mpdprocessor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index b84675c..dbab8ca 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -315,9 +315,11 @@ class MpdProcessor(object):
                 if 'dat_file' in media_data:
                     segtimeline_generators[content_type] = SegmentTimeLineGenerator(media_data, self.cfg)
         periods = mpd.findall(add_ns('Period'))
-        BaseURL = mpd.findall(add_ns('BaseURL'))
+        BaseURL = [elem.text for elem in mpd.findall(add_ns('BaseURL'))]
+        if len(BaseURL) == 0 and self.cfg is not None and self.cfg.base_url:
+            BaseURL = [self.cfg.base_url]  # No BaseURL together with Location
         if len(BaseURL) > 0:
-            BaseURLParts = BaseURL[0].text.split('/')
+            BaseURLParts = BaseURL[0].split('/')
             if len(BaseURLParts) > 3:
                 BaseURLSegmented = BaseURLParts[0] + '//' + BaseURLParts[2] + '/' + BaseURLParts[3] + '/mpdcallback/'
         # From the Base URL
-- 
2.43.0


From 586dcbd08a770b4cc825459b3613888a55c4c193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:57 +0000
Subject: [PATCH 25/64] fix: replace stored base URLs including schedules and
 time offset

---
 dashlivesim/dashlib/mpdprocessor.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index dbab8ca..7b2bff3 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -150,17 +150,12 @@ class MpdProcessor(object):
             if child.tag != add_ns('ProgramInformation'):
                 break
             pos += 1
-        next_child = list(mpd)[pos]
+        for child in mpd.findall(add_ns('BaseURL')):  # Stored ones are replaced
+            mpd.remove(child)
         set_baseurl = SET_BASEURL
         if self.cfg and self.cfg.add_location:
             set_baseurl = False  # Cannot have both BASEURL and Location
-        if next_child.tag == add_ns('BaseURL'):
-            if 'BaseURL' not in data or not set_baseurl:
-                self.root.remove(next_child)
-            else:
-                self.modify_baseurl(next_child, data['BaseURL'])
-                pos += 1
-        elif ('BaseURL' in data) and set_baseurl:
+        if ('BaseURL' in data) and set_baseurl:
             if 'urls' in data and data['urls']:  # check if we have to set multiple URLs
                 url_header, url_body = data['BaseURL'].split('//')
                 url_parts = url_body.split('/')
@@ -222,10 +217,6 @@ class MpdProcessor(object):
             baseurl_elem.set('availabilityTimeComplete', new_atc)
         mpd.insert(pos, baseurl_elem)
 
-    def modify_baseurl(self, baseurl_elem, new_baseurl):
-        "Modify the text of an existing BaseURL"
-        baseurl_elem.text = new_baseurl
-
     def insert_ato(self, baseurl_elem, new_ato):
         "Add availabilityTimeOffset to BaseURL element"
         baseurl_elem.set('availabilityTimeOffset', new_ato)
-- 
2.43.0


From 3aeaee1e7f321f1c2d6801c257b4b1da50662cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:58 +0000
Subject: [PATCH 26/64] fix: keep the order of manifest children with stored
 Location or Metrics

---
 dashlivesim/dashlib/mpdprocessor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 7b2bff3..17b3240 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -137,7 +137,7 @@ class MpdProcessor(object):
     def process_mpd_children(self, mpd, data, period_data, ll_data):
         """Process the children of the MPD element.
         They should be in order ProgramInformation, BaseURL, Location, ServiceDescription,
-        Period, UTCTiming, Metrics."""
+        Period, Metrics, UTCTiming."""
         ato = 0
         atc = 'true'
         if 'availabilityTimeOffset' in data:
@@ -193,7 +193,7 @@ class MpdProcessor(object):
         children = list(mpd)
         for ch_nr in range(pos, len(children)):
             if children[ch_nr].tag == add_ns("Period"):
-                period = list(mpd)[pos]
+                period = children[ch_nr]
                 pos = ch_nr
                 break
         else:
@@ -201,7 +201,12 @@ class MpdProcessor(object):
         for i in range(1, len(period_data)):
             new_period = copy.deepcopy(period)
             mpd.insert(pos+i, new_period)
-        self.insert_utc_timings(mpd, pos+len(period_data))
+        utc_pos = pos + len(period_data)
+        for child in list(mpd)[utc_pos:]:
+            if child.tag not in (add_ns('Metrics'), add_ns('EssentialProperty'), add_ns('SupplementalProperty')):
+                break
+            utc_pos += 1
+        self.insert_utc_timings(mpd, utc_pos)
         self.update_periods(mpd, period_data, data['periodOffset'] >= 0, ll_data)
 
     def insert_baseurl(self, mpd, pos, new_baseurl, new_ato, new_atc):
-- 
2.43.0


From 955a924639761de46291afe0f5aa74beea78629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:11 +0000
Subject: [PATCH 27/64] fix: announce splices of the next minute in segments
 that reach into it

---
 dashlivesim/dashlib/mediasegmentfilter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index c7dab42..c9cc834 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -363,6 +363,7 @@ class MediaSegmentFilter(MP4Filter):
         elif self.scte35_per_minute == 8:
             splice_insert_times.append(minute_start+30)
             ad_duration = 20
+        splice_insert_times += [t + 60 for t in splice_insert_times]  # The segment may reach into the next minute
         found_splice_time = -1
         splice_time = None
         seg_endtime = seg_starttime + self.seg_duration
-- 
2.43.0


From 22a622cde4267f5709be5b9e3947ca01c02583a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 28/64] fix: signal an infinite time offset properly in
 low-latency templates

---
 dashlivesim/dashlib/mpd_proxy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 60312fc..0519f02 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -102,7 +102,8 @@ def generate_dynamic_mpd(dashProv, mpd_filename, in_data, now):
         if not cfg.availability_time_complete:
             mpd_data['availabilityTimeComplete'] = 'false'
     else:  # Set these values in the ll_data
-        ll_data['availabilityTimeOffset'] = '%f' % in_data['availability_time_offset_in_s']
+        ato = in_data['availability_time_offset_in_s']
+        ll_data['availabilityTimeOffset'] = 'INF' if ato == -1 else '%f' % ato  # -1 signals infinite
         ll_data['availabilityTimeComplete'] = 'false'
 
     if cfg.chunk_duration_in_s is not None and cfg.chunk_duration_in_s > 0:
-- 
2.43.0


From bae1a396757bf137b86422f12af9afbf3ac7d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 29/64] fix: keep the sample flags of segments that are split
 into chunks

---
 dashlivesim/dashlib/boxes.py   | 17 ++++++++++-------
 dashlivesim/dashlib/chunker.py | 11 ++++++++---
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 9b30936..17af528 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -61,7 +61,7 @@ def serialize_bytes(x, n):
     return serialize_u8(x) * n
 
 
-TRUNSample = namedtuple('TRUNSample', 'duration size sync offset')
+TRUNSample = namedtuple('TRUNSample', 'duration size flags offset')
 
 
 SAIZSample = namedtuple('SAIZSample', 'sample_info_size')
@@ -88,12 +88,13 @@ SIDXReference = namedtuple('SIDXReference', 'reference_type '
 
 class Sample:
 
-    def __init__(self, data, time=0, duration=0, sync=True, time_offset=0):
+    def __init__(self, data, time=0, duration=0, sync=True, time_offset=0, flags=None):
         self.data = data
         self.time = time
         self.duration = duration
         self.sync = sync
         self.time_offset = time_offset
+        self.flags = flags  # Full sample flags. If None, they are derived from sync
 
     @property
     def size(self):
@@ -949,8 +950,10 @@ class TRUNBox(Box):
         self.data_offset = data_offset
         self.use_comp_off = False  # Needs to be true for dash.js
 
-    def add_sample(self, duration, size, sync, offset):
-        self.samples.append(TRUNSample(duration, size, sync, offset))
+    def add_sample(self, duration, size, sync, offset, flags=None):
+        if flags is None:
+            flags = 0x02000000 if sync else 0x01010000
+        self.samples.append(TRUNSample(duration, size, flags, offset))
         if offset != 0:
             self.use_comp_off = True
 
@@ -988,8 +991,7 @@ class TRUNBox(Box):
             # 3bits sample_padding_value
             # 1bit sample_is_non_sync_sample (0 or 1, match sync samples)
             # 16bits sample_degradation_priority (0)
-            sync_flag = 0x02000000 if sample.sync else 0x01010000
-            yield serialize_u32(sync_flag)
+            yield serialize_u32(sample.flags)
 
             if self.use_comp_off:
                 yield serialize_u32(sample.offset)
@@ -1795,7 +1797,8 @@ def create_moof(segment_no, track_id, samples, encryptor=None):
         trun.add_sample(sample.duration,
                         sample.size,
                         sample.sync,
-                        sample.time_offset)
+                        sample.time_offset,
+                        sample.flags)
     traf.add_box(trun)
 
     # set data_offset in trun
diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 3aa6293..8323ca9 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -55,15 +55,20 @@ def decode_fragment(data, trex):
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for entry in map(trun.sample_entry, range(trun.sample_count)):
+    for i, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
         duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
         size = entry['size'] if trun.has_sample_size else default_sample_size
-        flags = entry['flags'] if trun.has_sample_flags else default_sample_flags
+        if trun.has_sample_flags:
+            flags = int(entry['flags'], 16)
+        elif trun.has_first_sample_flags and i == 0:
+            flags = trun.first_sample_flags
+        else:
+            flags = default_sample_flags
         time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
         begin, end = end, end + size
         data = root.fmap[base_data_offset+data_offset:][begin:end]
         t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, flags, time_offset)
+        yield Sample(data, t0, duration, time_offset=time_offset, flags=flags)
 
 
 def partition(samples, duration):
-- 
2.43.0


From 21ba8416cb61d9e5a57b6a0eeb587401153dfea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 30/64] fix: keep the samples of all track runs when splitting
 into chunks

---
 dashlivesim/dashlib/chunker.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index 8323ca9..d34b716 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -41,10 +41,8 @@ def decode_fragment(data, trex):
     moof = root.find(b'moof')
     tfhd = moof.find(b'traf.tfhd')
     tfdt = moof.find(b'traf.tfdt')
-    trun = moof.find(b'traf.trun')
 
     base_data_offset = tfhd.base_data_offset if tfhd.has_base_data_offset else moof.offset
-    data_offset = trun.data_offset if trun.has_data_offset else 0
     base_media_decode_time = tfdt.decode_time
 
     t0, t1 = base_media_decode_time, base_media_decode_time
@@ -55,20 +53,23 @@ def decode_fragment(data, trex):
                            trex.default_sample_size)
     default_sample_flags = (tfhd.default_sample_flags if tfhd.has_default_sample_flags else
                             trex.default_sample_flags)
-    for i, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
-        duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
-        size = entry['size'] if trun.has_sample_size else default_sample_size
-        if trun.has_sample_flags:
-            flags = int(entry['flags'], 16)
-        elif trun.has_first_sample_flags and i == 0:
-            flags = trun.first_sample_flags
-        else:
-            flags = default_sample_flags
-        time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
-        begin, end = end, end + size
-        data = root.fmap[base_data_offset+data_offset:][begin:end]
-        t0, t1 = t1, t1 + duration
-        yield Sample(data, t0, duration, time_offset=time_offset, flags=flags)
+    for trun in moof.find(b'traf').find(b'trun', return_first=False):
+        if trun.has_data_offset:
+            end = trun.data_offset
+        for i, entry in enumerate(map(trun.sample_entry, range(trun.sample_count))):
+            duration = entry['duration'] if trun.has_sample_duration else default_sample_duration
+            size = entry['size'] if trun.has_sample_size else default_sample_size
+            if trun.has_sample_flags:
+                flags = int(entry['flags'], 16)
+            elif trun.has_first_sample_flags and i == 0:
+                flags = trun.first_sample_flags
+            else:
+                flags = default_sample_flags
+            time_offset = entry['time_offset'] if trun.has_sample_composition_time_offset else 0
+            begin, end = end, end + size
+            data = root.fmap[base_data_offset:][begin:end]
+            t0, t1 = t1, t1 + duration
+            yield Sample(data, t0, duration, time_offset=time_offset, flags=flags)
 
 
 def partition(samples, duration):
-- 
2.43.0


From e0603898e187cd14ceed5816a3db65a56118e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 31/64] fix: keep negative composition time offsets when
 splitting into chunks

---
 dashlivesim/dashlib/boxes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/boxes.py b/dashlivesim/dashlib/boxes.py
index 17af528..54dd34c 100644
--- a/dashlivesim/dashlib/boxes.py
+++ b/dashlivesim/dashlib/boxes.py
@@ -971,6 +971,8 @@ class TRUNBox(Box):
         flags = 0x000001 | 0x000100 | 0x000200 | 0x000400
         if self.use_comp_off:
             flags |= 0x000800
+            if any(sample.offset < 0 for sample in self.samples):
+                flags |= 0x01000000  # Version 1 has signed offsets
 
         yield serialize_u32(self.size())
         yield serialize_name(b'trun')
-- 
2.43.0


From b22cbb8f13b42dd5a0971850e7fd06adf7ce5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 32/64] fix: count all track runs in the duration of an
 inserted sidx

---
 dashlivesim/dashlib/mediasegmentfilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/mediasegmentfilter.py b/dashlivesim/dashlib/mediasegmentfilter.py
index c9cc834..e46e891 100644
--- a/dashlivesim/dashlib/mediasegmentfilter.py
+++ b/dashlivesim/dashlib/mediasegmentfilter.py
@@ -190,7 +190,7 @@ class MediaSegmentFilter(MP4Filter):
                 pos += 4
             if sample_comp_time_present:
                 pos += 4
-        self.duration = duration
+        self.duration = duration if self.duration is None else self.duration + duration
 
         # Modify data_offset
         output = data[:16]
-- 
2.43.0


From 46f14c2ddcf249ec1172a5c25d56376c987672db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 33/64] fix: use trex defaults for the duration of an inserted
 sidx

---
 dashlivesim/dashlib/dash_proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/dashlib/dash_proxy.py b/dashlivesim/dashlib/dash_proxy.py
index 98c2e4b..5d781a0 100644
--- a/dashlivesim/dashlib/dash_proxy.py
+++ b/dashlivesim/dashlib/dash_proxy.py
@@ -314,6 +314,8 @@ def filter_media_segment(dashProv, rep, rel_path, vod_nr, seg_nr, seg_ext, offse
     timescale = rep['timescale']
     scte35_per_minute = (rep['content_type'] == 'video') and cfg.scte35_per_minute or 0
     is_ttml = rep['content_type'] == 'subtitles'
+    if trex_data is None and cfg.insert_sidx:  # The sidx duration may depend on trex defaults
+        trex_data = get_trex_data(dashProv, rel_path)
     default_sample_duration = trex_data.default_sample_duration if trex_data is not None else None
     seg_filter = MediaSegmentFilter(media_seg_file, seg_nr, cfg.seg_duration, offset_at_loop_start, lmsg, timescale,
                                     scte35_per_minute, rel_path,
-- 
2.43.0


From 6833dd1ef486a770d17ac99db1b7b3f7108c5efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 34/64] fix: bound timelines of recorded sessions by their
 periods

---
 dashlivesim/dashlib/mpdprocessor.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 17b3240..8c58fc5 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -385,8 +385,6 @@ class MpdProcessor(object):
                         end_time += media_time_at_ast - self.cfg.availability_start_time_in_s
                         use_closest = False
                         if self.cfg.stop_time and self.cfg.timeoffset == 0:
-                            start_time = self.cfg.start_time
-                            end_time = min(now, self.cfg.stop_time)
                             use_closest = True
                         seg_timeline = segtime_gen.create_segtimeline(
                             start_time, end_time, use_closest)
-- 
2.43.0


From d05f591f899afc95669c8f1276b0535014ef50a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:40 +0000
Subject: [PATCH 35/64] fix: adjust all data and auxiliary information offsets
 when multiplexing

---
 dashlivesim/dashlib/segmentmuxer.py | 50 ++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/dashlivesim/dashlib/segmentmuxer.py b/dashlivesim/dashlib/segmentmuxer.py
index c4bca6d..d375841 100644
--- a/dashlivesim/dashlib/segmentmuxer.py
+++ b/dashlivesim/dashlib/segmentmuxer.py
@@ -31,7 +31,7 @@
 #  POSSIBILITY OF SUCH DAMAGE.
 
 from dashlivesim.dashlib.mp4filter import MP4Filter
-from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32
+from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32, uint64_to_str, str_to_uint64
 
 
 class InitSegmentStructure(MP4Filter):
@@ -127,9 +127,9 @@ class MediaSegmentStructure(MP4Filter):
     def __init__(self, filename=None, data=None):
         MP4Filter.__init__(self, filename, data)
         self.top_level_boxes_to_parse = [b'styp', b'moof', b'mdat']
-        self.trun_data_offset = None
-        self.trun_data_offset_in_traf = None
+        self.moof_offset = None
         self.traf_start = None
+        self.offsets = []  # (position in traf, size, value) of all data offsets and auxiliary information offsets
         self.styp = None
         self.mfhd = None
         self.traf = None
@@ -141,8 +141,17 @@ class MediaSegmentStructure(MP4Filter):
         flags = str_to_uint32(data[8:12]) & 0xffffff
         data_offset_present = flags & 1
         if data_offset_present:
-            self.trun_data_offset = str_to_uint32(data[16:20])
-            self.trun_data_offset_in_traf = pos + 16 - self.traf_start
+            self.offsets.append((pos + 16 - self.traf_start, 4, str_to_uint32(data[16:20])))
+
+    def parse_saio(self, data, pos):
+        "Parse saio box and find positions of all offsets."
+        version_flags = str_to_uint32(data[8:12])
+        entry_size, to_int = (4, str_to_uint32) if version_flags >> 24 == 0 else (8, str_to_uint64)
+        start = 20 if version_flags & 1 else 12
+        nr_entries = str_to_uint32(data[start:start+4])
+        for i in range(nr_entries):
+            entry = start + 4 + i * entry_size
+            self.offsets.append((pos + entry - self.traf_start, entry_size, to_int(data[entry:entry+entry_size])))
 
     def filter_box(self, boxtype, data, file_pos, path=b""):
         "Filter box or tree of boxes recursively."
@@ -150,6 +159,7 @@ class MediaSegmentStructure(MP4Filter):
             self.styp = data
         elif boxtype == b"moof":
             self.moof = data
+            self.moof_offset = file_pos
         elif boxtype == b"mdat":
             self.mdat = data
         elif boxtype == b"mfhd":
@@ -159,6 +169,8 @@ class MediaSegmentStructure(MP4Filter):
             self.traf_start = file_pos
         elif boxtype == b"trun":
             self.parse_trun(data, file_pos)
+        elif boxtype == b"saio":
+            self.parse_saio(data, file_pos)
         if path == b"":
             path = boxtype
         else:
@@ -200,21 +212,23 @@ class MultiplexMediaSegments(object):
     def mux_on_sample_level(self):
         "Mux media samples into one mdata. This is done by simple concatenation."
 
-        def get_traf_with_mod_offset(mstruct, delta_offset):
-            "Get a traf box but with modified offset."
-            if mstruct.trun_data_offset is None:
-                return mstruct.traf
-            new_data_offset = mstruct.trun_data_offset + delta_offset
+        def get_traf_with_mod_offsets(mstruct, new_traf_pos, preceding_mdat_size):
+            "Get a traf box but with all offsets adjusted to its new position."
             traf = mstruct.traf
-            offset = mstruct.trun_data_offset_in_traf
-            return traf[:offset] + uint32_to_str(new_data_offset) + traf[offset+4:]
+            for pos, size, value in mstruct.offsets:
+                if value < len(mstruct.moof):  # Inside the traf box
+                    value += new_traf_pos - (mstruct.traf_start - mstruct.moof_offset)
+                else:
+                    value += moof_size - len(mstruct.moof) + preceding_mdat_size
+                to_str = uint32_to_str if size == 4 else uint64_to_str
+                traf = traf[:pos] + to_str(value) + traf[pos+size:]
+            return traf
+
+        mfhd_end = 8 + len(self.mstruct1.mfhd)
+        moof_size = mfhd_end + len(self.mstruct1.traf) + len(self.mstruct2.traf)
+        traf1 = get_traf_with_mod_offsets(self.mstruct1, mfhd_end, 0)
+        traf2 = get_traf_with_mod_offsets(self.mstruct2, mfhd_end + len(self.mstruct1.traf), len(self.mstruct1.mdat) - 8)
 
-        delta_offset1 = len(self.mstruct2.traf)
-        delta_offset2 = len(self.mstruct1.traf) + len(self.mstruct1.mdat) - 8
-        traf1 = get_traf_with_mod_offset(self.mstruct1, delta_offset1)
-        traf2 = get_traf_with_mod_offset(self.mstruct2, delta_offset2)
-
-        moof_size = 8 + len(self.mstruct1.mfhd) + len(self.mstruct1.traf) + len(self.mstruct2.traf)
         mdat_size = len(self.mstruct1.mdat) + len(self.mstruct2.mdat) - 8
 
         data = []
-- 
2.43.0


From 7de3ea4e43028d1ad69ae7104a500f863892552d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 36/64] fix: serve thumbnails with the content type of JPEG
 images

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 315aa8f..92d32c1 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -242,6 +242,8 @@ def get_mime_type(ext):
         return "video/iso.segment"
     elif ext == ".mp4":
         return "video/mp4"
+    elif ext == ".jpg":
+        return "image/jpeg"
 
     return "text/plain"
 
-- 
2.43.0


From bacd96ea6953732602e11ee4bc77a41d2ea55b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 37/64] fix: answer requests without a Host header

---
 dashlivesim/mod_wsgi/mod_dashlivesim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/mod_wsgi/mod_dashlivesim.py b/dashlivesim/mod_wsgi/mod_dashlivesim.py
index 92d32c1..ac1d51c 100644
--- a/dashlivesim/mod_wsgi/mod_dashlivesim.py
+++ b/dashlivesim/mod_wsgi/mod_dashlivesim.py
@@ -92,7 +92,7 @@ def full_reply(status_code, response, body=b"", headers={}):
 def application(environment, start_response):
     "WSGI Entrypoint"
 
-    hostname = environment['HTTP_HOST']
+    hostname = environment.get('HTTP_HOST') or environment.get('SERVER_NAME', 'localhost')  # HTTP/1.0 has no Host
     try:
         url = urlparse(environment['REQUEST_URI'])
     except ValueError as exc:
-- 
2.43.0


From ffd97570219cc906cdca2b678faa757340800b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 38/64] fix: read the timescale of version 1 media headers

---
 dashlivesim/dashlib/initsegmentfilter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/initsegmentfilter.py b/dashlivesim/dashlib/initsegmentfilter.py
index cad01e3..568431d 100644
--- a/dashlivesim/dashlib/initsegmentfilter.py
+++ b/dashlivesim/dashlib/initsegmentfilter.py
@@ -61,7 +61,10 @@ class InitFilter(MP4Filter):
 
     def process_mdhd(self, data):
         "Process mdhd to get track_timscale."
-        self._track_timescale = str_to_uint32(data[20:24])
+        if data[8] == 1:  # version
+            self._track_timescale = str_to_uint32(data[28:32])
+        else:
+            self._track_timescale = str_to_uint32(data[20:24])
         return data
 
     def process_trex(self, data):
-- 
2.43.0


From 48f91fd3bd99ad6d35ef04fdfb81d7cc10042be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 39/64] fix: write the configuration of analyzed subtitles

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 299821b..c810fc5 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -251,7 +251,7 @@ class DashAnalyzer(object):
         cfg_data = {'version' : '1.1', 'first_segment_in_loop' : self.firstSegmentInLoop,
                     'nr_segments_in_loop' : self.nrSegmentsInLoop, 'segment_duration_s' : self.segDuration}
         media_data = {}
-        for content_type in ('video', 'audio'):
+        for content_type in ('video', 'audio', 'subtitles'):
             if content_type in self.as_data:
                 mdata = self.as_data[content_type]
                 media_data[content_type] = {'representations' : [rep['id'] for rep in mdata['reps']],
-- 
2.43.0


From 4baf596acadb9eda75973b54442d317349100bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 40/64] fix: analyze manifests without an explicit start number

---
 dashlivesim/vodanalyzer/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/mpdprocessor.py b/dashlivesim/vodanalyzer/mpdprocessor.py
index 30dc313..c1ff2df 100644
--- a/dashlivesim/vodanalyzer/mpdprocessor.py
+++ b/dashlivesim/vodanalyzer/mpdprocessor.py
@@ -163,7 +163,7 @@ class AdaptationSet(MpdElement):
     @property
     def start_number(self):
         "StartNumber for segments (from SegmentTemplate)."
-        return int(self.attribs['startNumber'])
+        return int(self.attribs['startNumber'] or 1)
 
     @property
     def timescale(self):
-- 
2.43.0


From 647458979ebbe48c478e86c5407499ddf1941e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 41/64] fix: do not count other files as segments in analysis

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index c810fc5..d876d67 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -128,7 +128,7 @@ class DashAnalyzer(object):
         "Search the directory for the first and last segment and set firstNumber and lastNumber for this MediaType."
         rep_id = rep_data['id']
         mediaDir, mediaName = os.path.split(rep_data['absMediaPath'])
-        mediaRegexp = mediaName.replace("%d", "(\d+)").replace(".", "\.")
+        mediaRegexp = mediaName.replace("%d", "(\d+)").replace(".", "\.") + "$"
         mediaReg = re.compile(mediaRegexp)
         files = os.listdir(mediaDir)
         numbers = []
-- 
2.43.0


From 08d18a3db1a9efacb416759c8541a7e72ffeae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 42/64] fix: loop the segments that all analyzed
 representations have

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index d876d67..82f0ffe 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -147,7 +147,9 @@ class DashAnalyzer(object):
 
     def checkAndUpdateMediaData(self):
         """Check all segments for good values and return startTimes and total duration."""
-        lastGoodSegments = []
+        # Only segments that exist for all representations can be part of the loop
+        self.lastSegmentInLoop = min(rep_data['lastNumber'] for as_data in self.as_data.values()
+                                     for rep_data in as_data['reps'])
 
         print("Checking all the media segment durations for deviations.")
 
@@ -191,7 +193,7 @@ class DashAnalyzer(object):
                     lastDuration = 0
                     while (True):
                         segmentPath = rep_data['absMediaPath'] % segNr
-                        if not os.path.exists(segmentPath):
+                        if segNr > self.lastSegmentInLoop:
                             if self.verbose:
                                 print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
                                       rep_id, rep_data['endNr'], rep_data['endTime'],
@@ -236,9 +238,7 @@ class DashAnalyzer(object):
                             sys.stdout.write(".")
                     if rep_nr == 0:
                         writeSegTiming(ofh, firstSegmentInRepeat, firstStartTimeInRepeat, duration, repeatCount)
-                        lastGoodSegments.append(rep_data['endNr'])
                         as_data['totalTicks'] = rep_data['endTick'] - rep_data['startTick']
-        self.lastSegmentInLoop = min(lastGoodSegments)
         self.nrSegmentsInLoop = self.lastSegmentInLoop-self.firstSegmentInLoop+1
         self.loopTime = self.nrSegmentsInLoop*self.segDuration
         if self.verbose:
-- 
2.43.0


From be0227e77e6410e521cf2cd9e628d57a2ccde40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 43/64] fix: start a new run in the duration table after a gap

---
 dashlivesim/vodanalyzer/dashanalyzer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/vodanalyzer/dashanalyzer.py b/dashlivesim/vodanalyzer/dashanalyzer.py
index 82f0ffe..bd51789 100644
--- a/dashlivesim/vodanalyzer/dashanalyzer.py
+++ b/dashlivesim/vodanalyzer/dashanalyzer.py
@@ -206,7 +206,8 @@ class DashAnalyzer(object):
                         tfdt = msf.get_tfdt_value()
                         duration = msf.get_duration()
                         print("{0} {1:8d} {2}  {3}".format(content_type, segNr, tfdt, duration))
-                        if duration == lastDuration:
+                        if (duration == lastDuration and
+                                tfdt == firstStartTimeInRepeat + (repeatCount + 1)*duration):
                             repeatCount += 1
                         else:
                             if lastDuration != 0 and rep_nr == 0:
-- 
2.43.0


From 0f53f8bf3fdd00c99ee3e577f3ca95ed74914f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 44/64] fix: build generated subtitle segments as bytes

---
 dashlivesim/dashlib/stpp_generator/stpp_creator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 26858c9..9076d22 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -35,7 +35,7 @@ from dashlivesim.dashlib.mp4filter import MP4Filter
 from dashlivesim.dashlib.structops import uint32_to_str, str_to_uint32, uint64_to_str
 
 
-TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
+TTML_MEDIA_TMPL = b'\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`moof\x00\x00\x00\x10mfhd\x00\x00\
 \x00\x00\x00\x00\x00\x01\x00\x00\x00Htraf\x00\x00\x00\x18tfhd\x00\x02\x00\x18\x00\x00\x00\x03\x00\x00\x03\xe8\x00\
 \x00\x00\t\x00\x00\x00\x14tfdt\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x14trun\x00\x00\x00\
 \x01\x00\x00\x00\x01\x00\x00\x00h\x00\x00\x00\x08mdat'
@@ -43,7 +43,7 @@ TTML_MEDIA_TMPL = '\x00\x00\x00\x18stypmsdh\x00\x00\x00\x00msdhdash\x00\x00\x00`
 TIMESCALE = 1000  # This is the units for tfdt time and durations.
 TRACK_ID = 3
 # The init has sample_time_scale and trackID according to the values above
-TTML_INIT = '\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
+TTML_INIT = b'\x00\x00\x00\x18ftypiso6\x00\x00\x00\x01isomdash\x00\x00\x02\x9dmoov\x00\x00\x00lmvhd\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xc8\x00\x00\x00\x00\x00\x01\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01\x00\x00\x00\x00\x00\x00\x00\x00\
 \x00\x00\x00\x00\x00\x00@\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\
@@ -146,7 +146,7 @@ class StppMediaFilter(MP4Filter):
 
     def process_tfdt(self, data):
         "Process a tfdt box and set the baseMediaDecodeTime."
-        version = ord(data[8])
+        version = data[8]
         assert version == 1, "Can only handle tfdt version 1 (64-bit tfdt)."
         output = data[:12]
         output += uint64_to_str(self.tfdt_time)
@@ -228,7 +228,7 @@ class StppInitFilter(MP4Filter):
         hdlr_name = data[32:-1]  # Actually UTF-8 encoded
         print("Found hdlr %s: %s" % (hdlr, hdlr_name))
         if self.handler_name:
-            output = uint32_to_str(len(self.handler_name) + 33) + data[4:32] + self.handler_name + '\x00'
+            output = uint32_to_str(len(self.handler_name) + 33) + data[4:32] + self.handler_name + b'\x00'
             print("Wrote hdlr %s" % self.handler_name)
         else:
             output = data
-- 
2.43.0


From 7f3eab7cec444e544369e8eab10bb8d21d9d5135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 45/64] fix: let the subtitle generator run as a module

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index 1a148b8..f1c9120 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -33,7 +33,7 @@ import os
 from argparse import ArgumentParser
 from jinja2 import Template
 
-from stpp_creator import StppInitFilter, create_media_segment, TTML_TEMPLATE
+from dashlivesim.dashlib.stpp_generator.stpp_creator import StppInitFilter, create_media_segment, TTML_TEMPLATE
 
 BODY_TEMPLATE = '''
     <div region="r0">
-- 
2.43.0


From e679ea48cf4e6bb59d5ecb8c357829486d2f5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 46/64] fix: keep the timescale of generated subtitles for all
 resolutions

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index f1c9120..c7f9456 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -80,7 +80,7 @@ class SegmentCreator(object):
         # Create init segment
         init_segment_path = os.path.join(self.output_path, "init.mp4")
         with open(init_segment_path, 'wb') as iof:
-            initfilter = StppInitFilter(self.language, self.trackid, self.resolution)
+            initfilter = StppInitFilter(self.language, self.trackid)
             initseg = initfilter.filter()
             iof.write(initseg)
 
-- 
2.43.0


From b60641637f1970f7798b0873eb1272776d3b91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 47/64] fix: end the last generated subtitle with its segment

---
 dashlivesim/dashlib/stpp_generator/make_stpp_segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
index c7f9456..e223c8c 100644
--- a/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
+++ b/dashlivesim/dashlib/stpp_generator/make_stpp_segments.py
@@ -99,7 +99,7 @@ class SegmentCreator(object):
             pars = []
             for rel_time in range(0, self.segment_duration, self.resolution):
                 start_time = self.create_time_string(time + rel_time)
-                end_time = self.create_time_string(time + rel_time + self.resolution)
+                end_time = self.create_time_string(time + min(rel_time + self.resolution, self.segment_duration))
 
                 id_str = "sub%05d" % (time+rel_time)
 
-- 
2.43.0


From 1681bc5e243ed845bea21c328ed763cdf2ee48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:50 +0000
Subject: [PATCH 48/64] fix: let the defaults of generated subtitles apply to
 their track

---
 dashlivesim/dashlib/stpp_generator/stpp_creator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 9076d22..7296477 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -171,7 +171,7 @@ class StppInitFilter(MP4Filter):
         self.creation_modfication_time = creation_modfication_time  # Measured from 1904-01-01 in seconds
         self.handler_name = hdlr_name
         self.top_level_boxes_to_parse = [b'moov']
-        self.composite_boxes_to_parse = [b'moov', b'trak', b'mdia', b'minf', b'dinf']
+        self.composite_boxes_to_parse = [b'moov', b'mvex', b'trak', b'mdia', b'minf', b'dinf']
 
     def process_mvhd(self, data):
         "Set nextTrackId and time and movie timescale."
@@ -181,6 +181,10 @@ class StppInitFilter(MP4Filter):
         output += uint32_to_str(self.track_id + 1)  # next_track_ID
         return output
 
+    def process_trex(self, data):
+        "Set trackID."
+        return data[:12] + uint32_to_str(self.track_id) + data[16:]
+
     def process_tkhd(self, data):
         "Set trackID and time."
         version = data[8]
-- 
2.43.0


From 0dc805d9910657879159310bcb4c9674b99d9bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 49/64] fix: name the requested language in generated subtitles

---
 dashlivesim/dashlib/stpp_generator/stpp_creator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/stpp_generator/stpp_creator.py b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
index 7296477..72a5bda 100644
--- a/dashlivesim/dashlib/stpp_generator/stpp_creator.py
+++ b/dashlivesim/dashlib/stpp_generator/stpp_creator.py
@@ -68,7 +68,7 @@ TTML_TEMPLATE = '''
 <tt xmlns:ttp="http://www.w3.org/ns/ttml#parameter" xmlns="http://www.w3.org/ns/ttml"
     xmlns:tts="http://www.w3.org/ns/ttml#styling" xmlns:ttm="http://www.w3.org/ns/ttml#metadata"
     xmlns:ebuttm="urn:ebu:metadata" xmlns:ebutts="urn:ebu:style"
-    xml:lang="en" xml:space="default"
+    xml:lang="{{{{lang}}}}" xml:space="default"
     ttp:timeBase="media"
     ttp:cellResolution="32 15">
   <head>
-- 
2.43.0


From 152a70e9232650514972f2ba9f22891f2643d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 50/64] fix: read captions with tabs and drop-frame time codes,
 and sort them

---
 dashlivesim/cc_inserter/cc_inserter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index a64f107..8af4336 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -503,12 +503,13 @@ class SCCParser(object):
             for line in lines:
                 line = line.rstrip()
                 if len(line) > 0 and line.find(':') > 0:
-                    parts = line.split(' ')
+                    parts = line.replace(";", ":").split()
                     start_time = convert_time(parts[0])
                     chunked_data = list(chunks(parts[1:], 31))
                     for cun in chunked_data:
                         data = {'start_time': start_time, 'cea608': cun}
                         self.result.append(data)
+        self.result.sort(key=lambda data: data['start_time'])
 
 
 def main():
-- 
2.43.0


From d72f29569087c3aa17ca283d471d525a36bd88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 51/64] fix: insert captions for manifests without a start
 number

---
 dashlivesim/cc_inserter/mpdprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/mpdprocessor.py b/dashlivesim/cc_inserter/mpdprocessor.py
index 8957e8c..d5b46c0 100644
--- a/dashlivesim/cc_inserter/mpdprocessor.py
+++ b/dashlivesim/cc_inserter/mpdprocessor.py
@@ -163,7 +163,7 @@ class AdaptationSet(MpdElement):
     @property
     def start_number(self):
         "StartNumber for segments (from SegmentTemplate)."
-        return int(self.attribs['startNumber'])
+        return int(self.attribs['startNumber'] or 1)
 
     @property
     def timescale(self):
-- 
2.43.0


From 438734cbd3586c06a183a0613bc2f7141667e7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:04 +0000
Subject: [PATCH 52/64] fix: find the stored segments for captions, and name
 the missing ones

---
 dashlivesim/cc_inserter/cc_inserter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 8af4336..939e487 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -295,7 +295,7 @@ def get_segment_range(rep_data):
     "Search the directory for the first and last segment and set firstNumber and lastNumber for this MediaType."
     rep_id = rep_data['id']
     media_dir, media_name = os.path.split(rep_data['absMediaPath'])
-    media_regexp = media_name.replace("%d", r"(\d+)").replace(".", r"\.")
+    media_regexp = media_name.replace("%d", r"(\d+)").replace(".", r"\.") + "$"
     media_reg = re.compile(media_regexp)
     files = os.listdir(media_dir)
     numbers = []
@@ -307,7 +307,7 @@ def get_segment_range(rep_data):
     numbers.sort()
     for i in range(1, len(numbers)):
         if numbers[i] != numbers[i-1] + 1:
-            raise CCInserterError("%s segment missing between %d and %d" % rep_id, numbers[i], numbers[i-1])
+            raise CCInserterError("%s segment missing between %d and %d" % (rep_id, numbers[i-1], numbers[i]))
     print("Found %s segments %d - %d" % (rep_id, numbers[0], numbers[-1]))
     rep_data['firstNumber'] = numbers[0]
     rep_data['lastNumber'] = numbers[-1]
-- 
2.43.0


From 92c6c687825b7691271b5c27b219312d8ab405bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 53/64] fix: round the end of a segment like those of its
 samples

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 939e487..18c2b06 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -451,7 +451,7 @@ class CCInserter(object):
                         duration = msf.get_duration()
 
                         start_time = tfdt / float(track_timescale)
-                        end_time = start_time + (duration / float(track_timescale))
+                        end_time = (tfdt + duration) / float(track_timescale)
                         scc_data_for_segment = self.get_scc_data(start_time, end_time)
                         if len(scc_data_for_segment):
                             # Insert cc data into segment
-- 
2.43.0


From 5a4bdb3f7bf1c71193d6407b43dedbbb9a845c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 54/64] fix: keep the flags of the first sample when inserting
 captions

---
 dashlivesim/cc_inserter/cc_inserter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 18c2b06..b7f0e98 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -122,7 +122,8 @@ class CCInsertFilter(MP4Filter):
             output += uint32_to_str(self.trun_offset)
             pos += 4
         if flags & 0x4:
-            pos += 4  # First sample flags present
+            output += data[pos:pos+4]  # First sample flags present
+            pos += 4
 
         sample_duration_present = flags & 0x100
         sample_size_present = flags & 0x200
-- 
2.43.0


From f2f8b7d214b9057a5d26bc0ebf3371ba302df779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 55/64] fix: place captions by default sample durations, and
 refuse default sizes

---
 dashlivesim/cc_inserter/cc_inserter.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index b7f0e98..382ccd7 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -95,7 +95,7 @@ def generate_data(scc_data, field=1):
 
 class CCInsertFilter(MP4Filter):
     """CC Insert filter"""
-    def __init__(self, segmentFile, scc_data, time_scale, tfdt, field):
+    def __init__(self, segmentFile, scc_data, time_scale, tfdt, field, default_sample_duration=0):
         MP4Filter.__init__(self, segmentFile)
         self.top_level_boxes_to_parse = [b"styp", b"sidx", b"moof", b"mdat"]
         self.composite_boxes_to_parse = [b"moof", b"traf"]
@@ -103,9 +103,18 @@ class CCInsertFilter(MP4Filter):
         self.time_scale = time_scale
         self.tfdt = tfdt
         self.field = field
+        self.default_sample_duration = default_sample_duration
         self.trun_offset = 0
         self.scc_map = []
 
+    def process_tfhd(self, data):
+        """Get the default sample duration."""
+        flags = str_to_uint32(data[8:12]) & 0xffffff
+        if flags & 0x8:
+            pos = 16 + (8 if flags & 0x1 else 0) + (4 if flags & 0x2 else 0)
+            self.default_sample_duration = str_to_uint32(data[pos:pos+4])
+        return data
+
     def process_trun(self, data):
         """Process trun box."""
         # pylint: disable=too-many-locals,too-many-branches,too-many-statements
@@ -133,8 +142,11 @@ class CCInsertFilter(MP4Filter):
 
         orig_sample_pos = 0
 
+        if not sample_size_present:
+            raise CCInserterError("Cannot insert captions without sample sizes in the trun box")
+
         for i in range(sample_count):
-            duration = 0
+            duration = self.default_sample_duration
             size = 0
             flags = 0
             comp_time = 0
@@ -372,6 +384,7 @@ class CCInserter(object):
                 init_filter = initsegmentfilter.InitFilter(rep_data['absInitPath'])
                 init_filter.filter()
                 rep_data['trackID'] = init_filter.track_id
+                rep_data['default_sample_duration'] = init_filter.default_sample_duration or 0
                 print("%s trackID = %d" % (content_type, rep_data['trackID']))
                 rep_data['relMediaPath'] = rep.get_media_path()
                 rep_data['absMediaPath'] = os.path.join(self.base_path, rep.get_media_path())
@@ -446,7 +459,8 @@ class CCInserter(object):
                                       rep_data['endTime']-rep_data['startTime']))
                             break
                         # print "Parsing segment: " + segment_path
-                        msf = mediasegmentfilter.MediaSegmentFilter(segment_path)
+                        msf = mediasegmentfilter.MediaSegmentFilter(
+                            segment_path, default_sample_duration=rep_data['default_sample_duration'])
                         msf.filter()
                         tfdt = msf.get_tfdt_value()
                         duration = msf.get_duration()
@@ -457,7 +471,7 @@ class CCInserter(object):
                         if len(scc_data_for_segment):
                             # Insert cc data into segment
                             cc_filter = CCInsertFilter(segment_path, scc_data_for_segment, track_timescale,
-                                                       tfdt, self.field)
+                                                       tfdt, self.field, rep_data['default_sample_duration'])
                             output = cc_filter.filter()
 
                             print(os.path.join(self.out_path, "%d.m4s" % seg_nr))
-- 
2.43.0


From 28a4fcb6983c95be2ecbf959c14785ed3801e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 56/64] fix: insert captions into the samples of all track runs

---
 dashlivesim/cc_inserter/cc_inserter.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 382ccd7..d40def4 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -104,7 +104,8 @@ class CCInsertFilter(MP4Filter):
         self.tfdt = tfdt
         self.field = field
         self.default_sample_duration = default_sample_duration
-        self.trun_offset = 0
+        self.sample_pos = 0  # Of the next sample, relative to the moof box
+        self.inserted_size = 0
         self.scc_map = []
 
     def process_tfhd(self, data):
@@ -127,8 +128,8 @@ class CCInsertFilter(MP4Filter):
 
         if flags & 0x1:  # Data offset present
             # data_offset_present = True
-            self.trun_offset = str_to_uint32(data[16:20])
-            output += uint32_to_str(self.trun_offset)
+            self.sample_pos = str_to_uint32(data[16:20])
+            output += uint32_to_str(self.sample_pos + self.inserted_size)
             pos += 4
         if flags & 0x4:
             output += data[pos:pos+4]  # First sample flags present
@@ -140,7 +141,7 @@ class CCInsertFilter(MP4Filter):
         sample_comp_time_present = flags & 0x800
         sample_time_tfdt = self.tfdt
 
-        orig_sample_pos = 0
+        orig_sample_pos = self.sample_pos
 
         if not sample_size_present:
             raise CCInserterError("Cannot insert captions without sample sizes in the trun box")
@@ -187,6 +188,7 @@ class CCInsertFilter(MP4Filter):
                      'size': size,
                      'scc_nalu': scc_generated_data})
                 output_size += len(scc_generated_data)
+                self.inserted_size += len(scc_generated_data)
             if sample_duration_present:
                 output += uint32_to_str(duration)
             if sample_size_present:
@@ -197,21 +199,21 @@ class CCInsertFilter(MP4Filter):
                 output += uint32_to_str(comp_time)
             sample_time_tfdt += duration
             orig_sample_pos += size
+        self.sample_pos = orig_sample_pos
+        self.tfdt = sample_time_tfdt
         return output
 
     def process_mdat(self, data):
         """Process mdat box and insert cea608 data before the video nal units."""
         pos = 0
-        offset = self.trun_offset - (self.mdat_start - self.moof_start)
+        offset = 4
         mdat_end = len(data)
         new_mdat_size = len(data)
         for scc_data in self.scc_map:
             new_mdat_size += len(scc_data['scc_nalu'])
         output = struct.pack(">I", new_mdat_size)
-        pos = 4
-        output += data[pos:offset]
-        data_offset = offset
-        # scc_map positions are inside mdat
+        data_offset = self.moof_start - self.mdat_start
+        # scc_map positions are relative to the moof box
         for scc_data in self.scc_map:
             scc_pos = scc_data['pos'] + data_offset
             if scc_pos > offset:
-- 
2.43.0


From 5bd10d9742d3744087779943b34b4043f48f4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 57/64] fix: count inserted captions in the size of the sidx
 reference

---
 dashlivesim/cc_inserter/cc_inserter.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index d40def4..52cb944 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -240,6 +240,16 @@ class CCInsertFilter(MP4Filter):
             output += data[offset:]
         return output
 
+    def finalize(self):
+        """Make the sidx box cover the inserted data."""
+        pos = 0
+        for size, box in self.output_top_level_boxes:
+            if box == b"sidx":
+                ref_pos = pos + (32 if self.output[pos+8] == 0 else 40)
+                ref_size = str_to_uint32(self.output[ref_pos:ref_pos+4]) + self.inserted_size
+                self.output = self.output[:ref_pos] + uint32_to_str(ref_size) + self.output[ref_pos+4:]
+            pos += size
+
     def get_scc_data(self, start_time, end_time):
         """Return scc data for a specified time period"""
         result = []
-- 
2.43.0


From 4b5510c755eb40fa016ed8349f776c5639291915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:33 +0000
Subject: [PATCH 58/64] fix: keep the segments with captions of several
 representations apart

---
 dashlivesim/cc_inserter/cc_inserter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 52cb944..444eb4e 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -486,8 +486,12 @@ class CCInserter(object):
                                                        tfdt, self.field, rep_data['default_sample_duration'])
                             output = cc_filter.filter()
 
-                            print(os.path.join(self.out_path, "%d.m4s" % seg_nr))
-                            with open(os.path.join(self.out_path, "%d.m4s" % seg_nr), "wb") as fil:
+                            out_path = self.out_path
+                            if len(as_data['reps']) > 1:
+                                out_path = os.path.join(out_path, rep_id)
+                                os.makedirs(out_path, exist_ok=True)
+                            print(os.path.join(out_path, "%d.m4s" % seg_nr))
+                            with open(os.path.join(out_path, "%d.m4s" % seg_nr), "wb") as fil:
                                 fil.write(output)
                                 fil.close()
 
-- 
2.43.0


From e9a897235a6fc9e6f8471eafd5d3b8b0efd5acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:00 +0000
Subject: [PATCH 59/64] fix: report no good caption segment where there is none

---
 dashlivesim/cc_inserter/cc_inserter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dashlivesim/cc_inserter/cc_inserter.py b/dashlivesim/cc_inserter/cc_inserter.py
index 444eb4e..05e52c3 100644
--- a/dashlivesim/cc_inserter/cc_inserter.py
+++ b/dashlivesim/cc_inserter/cc_inserter.py
@@ -465,7 +465,7 @@ class CCInserter(object):
                     while True:
                         segment_path = rep_data['absMediaPath'] % seg_nr
                         if not os.path.exists(segment_path):
-                            if self.verbose:
+                            if self.verbose and rep_data['endNr'] is not None:
                                 print("\nLast good %s segment is %d, endTime=%.3fs, totalTime=%.3fs" % (
                                       rep_id, rep_data['endNr'], rep_data['endTime'],
                                       rep_data['endTime']-rep_data['startTime']))
-- 
2.43.0


From 6578da1b57212a9d6665f1ed11b98f6917005005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:58 +0000
Subject: [PATCH 60/64] fix: timelines list no segment from before the
 availability start time

---
 dashlivesim/dashlib/segtimeline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 718f01e..78f16bc 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -83,6 +83,9 @@ class SegmentTimeLineGenerator(object):
             result = self.find_closest_start(start)
         else:
             result = self.find_latest_starting_before(start)
+            if result[0] is not None:  # No segment before the one at AST is served
+                first = self.find_closest_start(self.cfg.adjusted_pto(0, self.timescale))
+                result = max(result, first, key=lambda pos: (pos[2], pos[0], pos[1]))
         (start_index, start_repeats, start_wraps) = result
         # Number of the first segment of the window, also when nothing of it is available yet
         self.start_number = self.get_seg_number(start_wraps, start_index, start_repeats)
-- 
2.43.0


From 4b219cee01d897d75b4e41b7a510edc84c6adf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:08 +0000
Subject: [PATCH 61/64] fix: elements are inserted in the order of the MPD
 schema

---
 dashlivesim/dashlib/mpd_proxy.py    |  3 +++
 dashlivesim/dashlib/mpdprocessor.py | 34 ++++++++++++++++++++---------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 0519f02..0340d1b 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -306,6 +306,9 @@ def generate_period_data(mpd_data, now, cfg):
 
 def insert_asset_identifier(response, start_pos_period):
     ad_pos = response.find(">", start_pos_period) + 1
+    segment_base = response.find("<SegmentBase", ad_pos, response.find("<AdaptationSet", ad_pos))
+    if segment_base >= 0:  # An asset identifier comes behind it
+        ad_pos = response.find(">", segment_base) + 1
     response = response[:ad_pos] + "\n<AssetIdentifier schemeIdUri=\"urn:org:dashif:asset-id:2013\" value=\"md:cid:" \
                                    "EIDR:10.5240%2f0EFB-02CD-126E-8092-1E49-W\"></AssetIdentifier>" + response[ad_pos:]
     return response
diff --git a/dashlivesim/dashlib/mpdprocessor.py b/dashlivesim/dashlib/mpdprocessor.py
index 8c58fc5..1ac1f8e 100644
--- a/dashlivesim/dashlib/mpdprocessor.py
+++ b/dashlivesim/dashlib/mpdprocessor.py
@@ -47,6 +47,22 @@ UTC_TIMING_SNTP_SERVER = 'time.kfki.hu'
 UTC_TIMING_HTTP_SERVER = 'http://time.akamai.com/?iso'
 
 
+# Children which precede others, in the order of the MPD schema
+BEFORE_SUPPLEMENTAL_PROPERTY = ('FramePacking', 'AudioChannelConfiguration', 'ContentProtection', 'EssentialProperty',
+                                'SupplementalProperty')
+BEFORE_INBAND_EVENT_STREAM = BEFORE_SUPPLEMENTAL_PROPERTY + ('InbandEventStream',)
+BEFORE_PRODUCER_REFERENCE = BEFORE_INBAND_EVENT_STREAM + ('Switching', 'RandomAccess', 'GroupLabel', 'Label')
+BEFORE_SEGMENT_BASE = ('BaseURL',)
+BEFORE_EVENT_STREAM = BEFORE_SEGMENT_BASE + ('SegmentBase', 'SegmentList', 'SegmentTemplate', 'AssetIdentifier',
+                                             'EventStream')
+
+
+def insert_behind(parent, element, names):
+    "Insert element behind the last child of parent that has one of the names."
+    tags = [add_ns(name) for name in names]
+    parent.insert(max([0] + [i + 1 for i, child in enumerate(parent) if child.tag in tags]), element)
+
+
 def set_value_from_dict(element, key, data):
     "Set attribute key of element to value data[key], if present."
     if key in data:
@@ -251,7 +267,7 @@ class MpdProcessor(object):
         sd_elem.tail = "\n"
         mpd.insert(pos, sd_elem)
 
-    def insert_producer_reference(self, ad_set, pos):
+    def insert_producer_reference(self, ad_set):
         prt_elem = ElementTree.Element(add_ns('ProducerReferenceTime'))
         prt_elem.set("id", "0")
         prt_elem.set("type", "encoder")
@@ -262,7 +278,7 @@ class MpdProcessor(object):
         prt_elem.insert(0, utc_elem)
         prt_elem.text = "\n"
         prt_elem.tail = "\n"
-        ad_set.insert(pos, prt_elem)
+        insert_behind(ad_set, prt_elem, BEFORE_PRODUCER_REFERENCE)
 
     def update_periods(self, mpd, period_data, offset_at_period_level, ll_data):
         "Update periods to provide appropriate values."
@@ -289,7 +305,7 @@ class MpdProcessor(object):
             segmentbase_elem = ElementTree.Element(add_ns('SegmentBase'))
             if presentation_time_offset != 0:
                 segmentbase_elem.set('presentationTimeOffset', str(presentation_time_offset))
-            period.insert(0, segmentbase_elem)
+            insert_behind(period, segmentbase_elem, BEFORE_SEGMENT_BASE)
 
         def create_inband_scte35stream_elem():
             "Create an InbandEventStream element for SCTE-35."
@@ -336,25 +352,23 @@ class MpdProcessor(object):
             if 'mpdCallback' in pdata:
                 # Add the mpdCallback element only if the flag is raised.
                 mpdcallback_elem = create_inline_mpdcallback_elem(BaseURLSegmented)
-                period.insert(0, mpdcallback_elem)
+                insert_behind(period, mpdcallback_elem, BEFORE_EVENT_STREAM)
             adaptation_sets = period.findall(add_ns('AdaptationSet'))
             for ad_set in adaptation_sets:
-                ad_pos = 0
                 content_type = ad_set.get('contentType')
                 if self.emsg_last_seg:
                     inband_event_elem = create_inband_stream_elem()
-                    ad_set.insert(0, inband_event_elem)
+                    insert_behind(ad_set, inband_event_elem, BEFORE_INBAND_EVENT_STREAM)
                 if content_type == 'video' and self.scte35_present:
                     scte35_elem = create_inband_scte35stream_elem()
-                    ad_set.insert(0, scte35_elem)
-                    ad_pos += 1
+                    insert_behind(ad_set, scte35_elem, BEFORE_INBAND_EVENT_STREAM)
                 if self.continuous and last_period_id != '-1':
                     supplementalprop_elem = self.create_descriptor_elem("SupplementalProperty",
                                                                         "urn:mpeg:dash:period_continuity:2014",
                                                                         last_period_id)
-                    ad_set.insert(ad_pos, supplementalprop_elem)
+                    insert_behind(ad_set, supplementalprop_elem, BEFORE_SUPPLEMENTAL_PROPERTY)
                 if ll_data:
-                    self.insert_producer_reference(ad_set, ad_pos)
+                    self.insert_producer_reference(ad_set)
                 seg_templates = ad_set.findall(add_ns('SegmentTemplate'))
                 for seg_template in seg_templates:
                     set_attribs(seg_template, segmenttemplate_attribs, pdata)
-- 
2.43.0


From c10f22c9ea83f4c55f2781c7eb91845b443e3d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 62/64] fix: timelines list a segment only once it is served

---
 dashlivesim/dashlib/segtimeline.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dashlivesim/dashlib/segtimeline.py b/dashlivesim/dashlib/segtimeline.py
index 78f16bc..297057d 100644
--- a/dashlivesim/dashlib/segtimeline.py
+++ b/dashlivesim/dashlib/segtimeline.py
@@ -93,7 +93,7 @@ class SegmentTimeLineGenerator(object):
         (end_index, end_repeats, end_wraps) = self.find_latest_starting_before(end)
         if end_index is None:
             return seg_timeline  # Before AST: nothing available yet
-        end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
+        end_tics = self.get_seg_availability(end_wraps, end_index, end_repeats)
         # print("end_time %d %d" % (end, end_tics))
 
         while end_tics > end:
@@ -108,7 +108,7 @@ class SegmentTimeLineGenerator(object):
                 end_repeats = self.segtimedata[end_index].repeats
                 if (end_wraps < 0):
                     return seg_timeline  # No segment has ended yet
-            end_tics = self.get_seg_endtime(end_wraps, end_index, end_repeats)
+            end_tics = self.get_seg_availability(end_wraps, end_index, end_repeats)
 
         # print "end_time2 %d %d %d" % (end, end_tics, (end-end_tics)/(self.timescale*1.0))
         # print "end time %d %d %d" % (end_index, end_repeats, end_wraps)
@@ -161,6 +161,11 @@ class SegmentTimeLineGenerator(object):
         seg_data = self.segtimedata[index]
         return nr_wraps*self.wrap_duration + seg_data.start_time + (repeats+1)*seg_data.duration
 
+    def get_seg_availability(self, nr_wraps, index, repeats):
+        "Get the time when a segment has ended and is served (not before its nominal end)."
+        nominal_end = (self.get_seg_number(nr_wraps, index, repeats) + 1) * self.cfg.seg_duration * self.timescale
+        return max(self.get_seg_endtime(nr_wraps, index, repeats), nominal_end)
+
     def find_latest_starting_before(self, act_time):
         "Find the latest segment starting before act_time."
         nr_wraps, rel_time = divmod(act_time, self.wrap_duration)
-- 
2.43.0


From fe649ba5eec41e14d03e5b2effd325ac17ccbcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:57 +0000
Subject: [PATCH 63/64] fix: links to remote periods stay valid with & and + in
 names

---
 dashlivesim/dashlib/mpd_proxy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dashlivesim/dashlib/mpd_proxy.py b/dashlivesim/dashlib/mpd_proxy.py
index 0340d1b..8c0d74d 100644
--- a/dashlivesim/dashlib/mpd_proxy.py
+++ b/dashlivesim/dashlib/mpd_proxy.py
@@ -1,6 +1,7 @@
 import re
 from math import ceil
 from xml.etree import ElementTree as ET
+from xml.sax.saxutils import escape
 
 from dashlivesim.dashlib.dash_proxy import DEFAULT_MINIMUM_UPDATE_PERIOD
 from dashlivesim.dashlib import mpdprocessor
@@ -13,7 +14,7 @@ def get_mpd(dashProv):
     if cfg.ext == ".period":
         if cfg.xlink_periods_per_hour <= 0:
             raise ValueError("Single periods are only available with the xlink option")
-        mpd_filename = "%s/%s/%s" % (dashProv.content_dir, cfg.content_name, cfg.filename.split('+')[0])
+        mpd_filename = "%s/%s/%s" % (dashProv.content_dir, cfg.content_name, cfg.filename.rsplit('+', 1)[0])
         # Get the first part of the string only, which is the .manifest file name.
     elif cfg.ext == ".mpd":
         mpd_filename = "%s/%s/%s" % (dashProv.content_dir, cfg.content_name, cfg.filename)
@@ -174,7 +175,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
                 else:
                     xlink_period = '<Period xlink:href="%s%s+%s.period" xlink:actuate="onLoad" ' \
                                    'xmlns:xlink="http://www.w3.org/1999/xlink"></Period>' % (
-                                       base_url[0], filename, period_id)
+                                       escape(base_url[0], {'"': "&quot;"}), escape(filename, {'"': "&quot;"}), period_id)
                 if insert_ad > 0 and counter == 1:  # This condition ensures that the first period in the mpd is not
                     # replaced when the ads are enabled.
                     response = insert_asset_identifier(response, start_pos_period)
@@ -191,7 +192,7 @@ def generate_response_with_xlink(response, cfg, filename, nr_periods_per_hour, n
     else:
         # This will be done when ".period" file is being requested
         # Start manipulating the original period so that it looks like .period in the static xlink file.
-        filename = filename.split('+')[1]
+        filename = filename.rsplit('+', 1)[1]
         # Second part of string has the period id.
         start_pos_xmlns = response.find("xmlns=")
         end_pos_xmlns = response.find('"', start_pos_xmlns + 7) + 1
-- 
2.43.0


From ec90836bf2889585689c6eee5aab170a8bdf9ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:08 +0000
Subject: [PATCH 64/64] fix: chunker tool uses the defaults of the
 initialization segment

---
 dashlivesim/dashlib/chunker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dashlivesim/dashlib/chunker.py b/dashlivesim/dashlib/chunker.py
index d34b716..d198fe2 100644
--- a/dashlivesim/dashlib/chunker.py
+++ b/dashlivesim/dashlib/chunker.py
@@ -142,7 +142,9 @@ if __name__ == '__main__':
     init = open(args.init, 'rb').read()
     media = open(args.media, 'rb').read()
 
+    trex = mp4(init).find(b'moov.mvex.trex')
+
     with open(args.outfile, 'wb') as ofh:
-        for chunk_data in chunk(media, duration, init_data=init):
+        for chunk_data in chunk(media, duration, trex):
             ofh.write(chunk_data)
             ofh.flush()
-- 
2.43.0

