From 0f7b08e4a80c4efa9cbd3453c9af25eabbb0b0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 01/66] fix: do not read past the end of signals shorter than
 the STA/LTA windows

---
 quakemigrate/core/src/onsetlib.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index fe14a1d..615ddf5 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -40,6 +40,11 @@ overlapping_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double buf, sta = 0., lta;
 
+  // Signal too short for a full long-term window - leave the null result
+  if (head -> n < head -> nlta) {
+    return;
+  }
+
   for (i = 0; i < head -> nsta; ++i) {
     sta += signal[i];
   }
@@ -84,6 +89,11 @@ centred_sta_lta(const double * signal,
   const double frac = (double) head -> nlta / (double) head -> nsta;
   double sta = 0., lta = 0.;
 
+  // Signal too short for both full windows - leave the null result
+  if (head -> n < head -> nlta + head -> nsta) {
+    return;
+  }
+
   // Calculate initial LTA
   for (i = 0; i < head -> nlta; ++i) {
     lta += signal[i];
-- 
2.43.0


From 6b5fad688ef177089ced6cb6eef9a661dfa1a3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:16 +0000
Subject: [PATCH 02/66] fix: return the null STA/LTA result (1) wherever the
 long-term window is all zero

---
 quakemigrate/core/src/onsetlib.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index 615ddf5..d000c20 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -54,12 +54,12 @@ overlapping_sta_lta(const double * signal,
     lta += buf;
     sta += buf - signal[i - head -> nsta];
   }
-  onset[head -> nlta - 1] = sta / lta * frac;
+  onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n; ++i) {
     buf = signal[i];
     sta += buf - signal[i - head -> nsta];
     lta += buf - signal[i - head -> nlta];
-    onset[i] = sta / lta * frac;
+    onset[i] = lta > 0. ? sta / lta * frac : 1.;
   }
 }
 
@@ -105,7 +105,7 @@ centred_sta_lta(const double * signal,
   }
 
   // Set first value, and loop over rest of signal
-  onset[head -> nlta - 1] = sta / lta * frac;
+  onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
   for (i = head -> nlta; i < head -> n - head -> nsta; ++i) {
     sta += signal[i + head -> nsta] - signal[i];
     lta += signal[i] - signal[i - head -> nlta];
@@ -146,7 +146,7 @@ recursive_sta_lta(const double * signal,
     buf = signal[i];
     sta = csta * buf + (1 - csta) * sta;
     lta = clta * buf + (1 - clta) * lta;
-    onset[i] = sta / lta;
+    onset[i] = lta > 0. ? sta / lta : 1.;
   }
 
   // Null first nlta to remove transient signal from "recursive" measure
-- 
2.43.0


From 65d9815fc2d1c182ff8abf541474f3d8e953296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 03/66] fix: keep STA/LTA windows accurate when the signal
 drops by many orders of magnitude

---
 quakemigrate/core/src/onsetlib.c | 54 ++++++++++++++++++++++++++++----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/quakemigrate/core/src/onsetlib.c b/quakemigrate/core/src/onsetlib.c
index d000c20..4ad55ac 100644
--- a/quakemigrate/core/src/onsetlib.c
+++ b/quakemigrate/core/src/onsetlib.c
@@ -14,6 +14,41 @@
 
 #include "qmlib.h"
 
+/* Ratio of a running sum to its recent peak below which it is re-calculated */
+#define RESUM_RATIO 1e-6
+
+/*
+ * Function: update_window
+ * -----------------------
+ * Move a running sum on by one sample. Whenever it has become small relative to
+ * its recent peak value it is summed afresh, as the rounding errors left behind
+ * by the large values that have been subtracted would otherwise dominate it.
+ *
+ * Arguments
+ * ---------
+ * last: Pointer to last sample in the window.
+ * n_window: Number of samples in the window.
+ * change: Difference between sample added to and removed from the window.
+ * sum: Pointer to running sum.
+ * peak: Pointer to peak value of running sum since it was last re-calculated.
+ */
+static void
+update_window(const double * last, int n_window, double change, double * sum,
+  double * peak) {
+
+  int j;
+
+  *sum += change;
+  if (*sum < RESUM_RATIO * *peak) {
+    *sum = 0.;
+    for (j = 0; j < n_window; ++j) {
+      *sum += last[-j];
+    }
+    *peak = *sum;
+  }
+  *peak = MAX(*peak, *sum);
+}
+
 /*
  * Function: overlapping_sta_lta
  * -----------------------------
@@ -38,7 +73,7 @@ overlapping_sta_lta(const double * signal,
 
   int i;
   const double frac = (double) head -> nlta / (double) head -> nsta;
-  double buf, sta = 0., lta;
+  double buf, sta = 0., lta, sta_peak, lta_peak;
 
   // Signal too short for a full long-term window - leave the null result
   if (head -> n < head -> nlta) {
@@ -55,10 +90,13 @@ overlapping_sta_lta(const double * signal,
     sta += buf - signal[i - head -> nsta];
   }
   onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
+  sta_peak = lta_peak = lta;
   for (i = head -> nlta; i < head -> n; ++i) {
     buf = signal[i];
-    sta += buf - signal[i - head -> nsta];
-    lta += buf - signal[i - head -> nlta];
+    update_window(&signal[i], head -> nsta, buf - signal[i - head -> nsta],
+      &sta, &sta_peak);
+    update_window(&signal[i], head -> nlta, buf - signal[i - head -> nlta],
+      &lta, &lta_peak);
     onset[i] = lta > 0. ? sta / lta * frac : 1.;
   }
 }
@@ -87,7 +125,7 @@ centred_sta_lta(const double * signal,
 
   int i;
   const double frac = (double) head -> nlta / (double) head -> nsta;
-  double sta = 0., lta = 0.;
+  double sta = 0., lta = 0., sta_peak, lta_peak;
 
   // Signal too short for both full windows - leave the null result
   if (head -> n < head -> nlta + head -> nsta) {
@@ -106,9 +144,13 @@ centred_sta_lta(const double * signal,
 
   // Set first value, and loop over rest of signal
   onset[head -> nlta - 1] = lta > 0. ? sta / lta * frac : 1.;
+  sta_peak = sta;
+  lta_peak = lta;
   for (i = head -> nlta; i < head -> n - head -> nsta; ++i) {
-    sta += signal[i + head -> nsta] - signal[i];
-    lta += signal[i] - signal[i - head -> nlta];
+    update_window(&signal[i + head -> nsta], head -> nsta,
+      signal[i + head -> nsta] - signal[i], &sta, &sta_peak);
+    update_window(&signal[i], head -> nlta,
+      signal[i] - signal[i - head -> nlta], &lta, &lta_peak);
     if (lta > 0.) {
       onset[i] = sta / lta * frac;
     } else {
-- 
2.43.0


From dd3ab8a692b6c735da30dec131edb8c1e4dde6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 04/66] fix: trim padding to a whole number of samples at any
 sampling rate

---
 quakemigrate/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index d4fd81c..5110e08 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -266,7 +266,8 @@ def trim2sample(time, sampling_rate):
 
     """
 
-    return int(np.ceil(time * sampling_rate) / sampling_rate * 1000) / 1000
+    # Round first, so that floating-point error is not counted as another sample
+    return float(np.ceil(np.round(time * sampling_rate, 6)) / sampling_rate)
 
 
 def wa_response(convert="DIS2DIS", obspy_def=True):
-- 
2.43.0


From 4510a52c64df53ba50bd2e1d5bebd719e1611314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 05/66] fix: do not reject complete data through rounding of
 the expected number of samples

---
 quakemigrate/io/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 7774784..3cd9d01 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -604,7 +604,7 @@ class WaveformData:
                 # rate as provided. To check that as well, use
                 # `check_sampling_rate=True` and specify a sampling rate.
                 if full_timespan:
-                    n_samples = timespan * st_id[0].stats.sampling_rate + 1
+                    n_samples = round(timespan * st_id[0].stats.sampling_rate, 3) + 1
                     if len(st_id) > 1:
                         continue
                     elif st_id[0].stats.npts < n_samples:
-- 
2.43.0


From 9e0151b4f760b961047284e6d52ce4876a56cb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 06/66] fix: recognise flatlined channels with a non-zero level
 as unavailable

---
 quakemigrate/signal/onsets/stalta.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 4cb9812..8a16aee 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -187,6 +187,12 @@ def pre_process(stream, sampling_rate, resample, upfactor, filter_, starttime, e
 
     logging.debug(stream.__str__(extended=True))
     logging.debug(f"Resample={resample}, Upfactor={upfactor}")
+    # Zero any flatlined data, so that it remains exactly flat when it is processed (as
+    # opposed to being left with rounding errors) and fails the availability checks
+    stream = stream.copy()
+    for tr in stream:
+        if tr.stats.npts and tr.data.max() == tr.data.min():
+            tr.data = np.zeros_like(tr.data)
     # Resample the data here
     resampled_stream = util.resample(
         stream, sampling_rate, resample, upfactor, starttime, endtime
-- 
2.43.0


From 9b54319eb17683f2809d6109c8600043762a0bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 07/66] fix: do not read other stations whose file names happen
 to match

---
 quakemigrate/io/data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 3cd9d01..7ce39e0 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -296,6 +296,12 @@ class Archive:
                     logging.info(f"File not compatible with ObsPy - {file}")
                     continue
 
+            if not self.read_all_stations:
+                # File name patterns can also match other stations (e.g. "ST1*")
+                for tr in st:
+                    if tr.stats.station not in list(self.stations):
+                        st.remove(tr)
+
             # Merge waveforms channel-by-channel with no-clobber merge
             st = util.merge_stream(st)
 
-- 
2.43.0


From c1aedb4c2709a34aa1b6fff857b8b13cdb72e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:35 +0000
Subject: [PATCH 08/66] fix: do not scan an extra time step because of rounding
 in the number of steps

---
 quakemigrate/signal/scan.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index e41bbea..0869c56 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -324,8 +324,9 @@ class QuakeScan:
         if endtime.time == time(0, 0):
             endtime -= 1 / self.scan_rate
 
-        # Number of steps to break run duration into
-        n_steps = int(np.ceil((endtime - starttime) / self.timestep))
+        # Number of steps to break run duration into; round first, so that
+        # floating-point error is not counted as another step
+        n_steps = int(np.ceil(np.round((endtime - starttime) / self.timestep, 6)))
 
         # Check if chosen start & endtimes and timestep are compatible
         calc_endtime = starttime + n_steps * self.timestep - 1 / self.scan_rate
-- 
2.43.0


From 1f10d4ba17d4a66e51830fb96f1d6a83c685568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 09/66] fix: do not discard stored coalescence on the far side
 of a gap between scans

---
 quakemigrate/io/scanmseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 59937b8..6f28746 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -299,6 +299,9 @@ def read_scanmseed(run, starttime, endtime, pad, ucf):
         raise util.NoScanMseedDataException
 
     scanmseed.merge(method=-1)
+    # Fill any gaps between separate stretches of the scan as detect() does for
+    # timesteps without data, so that each channel is a single trace
+    scanmseed.merge(method=1, fill_value=0)
     stats = scanmseed.select(station="COA")[0].stats
 
     data = pd.DataFrame()
-- 
2.43.0


From ad825c04af01023da6fcde94fd079315b27232fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 10/66] fix: do not let a failed STEIM2 attempt overwrite part
 of the fallback STEIM1 file

---
 quakemigrate/io/scanmseed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index 6f28746..da6612a 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -211,11 +211,16 @@ class ScanmSEED:
 
         try:
             st.write(str(file), format="MSEED", encoding="STEIM2")
+            compressed = True
         except InternalMSEEDError as e:
             logging.debug(
                 f"Cannot compress data: {e}\nUnable to compress data using STEIM2 - "
                 "falling back on STEIM1."
             )
+            compressed = False
+        # The failed attempt must have been closed first (i.e. the exception released),
+        # otherwise the data it has buffered would later overwrite part of the new file
+        if not compressed:
             st.write(str(file), format="MSEED", encoding="STEIM1")
         self.written = True
 
-- 
2.43.0


From 77d6304732712589689b121b3bf5e187b0d06f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:02 +0000
Subject: [PATCH 11/66] fix: do not let one run's extra triggered-event columns
 leak into later runs

---
 quakemigrate/io/triggered_events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/triggered_events.py b/quakemigrate/io/triggered_events.py
index 059c5c5..920140c 100644
--- a/quakemigrate/io/triggered_events.py
+++ b/quakemigrate/io/triggered_events.py
@@ -125,7 +125,7 @@ def write_triggered_events(run, events, starttime, write_event_time_windows):
     fpath = run.path / "trigger" / run.subname / "events"
     fpath.mkdir(exist_ok=True, parents=True)
 
-    output_cols = OUTPUT_COLS
+    output_cols = OUTPUT_COLS.copy()
     if write_event_time_windows:
         output_cols.extend(["MinTime", "MaxTime"])
 
-- 
2.43.0


From ee097f945495b751cdfd56a66b02999b8b76eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 12/66] fix: write an empty triggered-events file when there
 are no candidates

Otherwise the events of an earlier run with the same name stay in place and are
located as if they belonged to the current run.
---
 quakemigrate/signal/trigger.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 9b9c199..fe20e52 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -359,8 +359,8 @@ class Trigger:
                 "\tNo events triggered at this threshold - try a lower detection "
                 "threshold."
             )
-            events = candidate_events
-            discarded = candidate_events
+            events = pd.DataFrame(columns=REFINED_EVENTS_COLS)
+            discarded = events
         else:
             refined_events = self._refine_candidates(candidate_events)
             logging.debug(refined_events)
@@ -374,10 +374,13 @@ class Trigger:
                 f"\n\t\t{len(events)} event(s) triggered within the specified region "
                 f"between {batchstart} \n\t\tand {batchend}"
             )
-            logging.info("\n\tWriting triggered events to file...")
-            write_triggered_events(
-                self.run, events, batchstart, self.write_event_time_windows
-            )
+
+        # Always write the file, even if there are no events, so that the events from an
+        # earlier run (e.g. with a lower threshold) are not mistaken for those of this run
+        logging.info("\n\tWriting triggered events to file...")
+        write_triggered_events(
+            self.run, events, batchstart, self.write_event_time_windows
+        )
 
         if self.plot_trigger_summary:
             logging.info("\n\tPlotting trigger summary...")
-- 
2.43.0


From e1cbae7d0919b4122f5499eb26dbbb2e32eea676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 13/66] fix: do not shorten threshold windows by a sample
 through float truncation

---
 quakemigrate/signal/trigger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index fe20e52..71fa021 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -461,7 +461,7 @@ class Trigger:
                 window_length = self.mad_window_length
             else:
                 window_length = self.median_window_length
-            breaks = breaks[breaks % int(window_length * sampling_rate) == 0][1:]
+            breaks = breaks[breaks % int(round(window_length * sampling_rate)) == 0][1:]
             chunks = np.split(scandata.values, breaks)
 
             # Calculate the median values
-- 
2.43.0


From e0f75e430d18d39f86e2ea61842933e9b1952dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 14/66] fix: read the same samples of every coalescence channel
 at any start and end time

obspy skips whole miniSEED records outside the requested window, even when they
hold the sample nearest to its limit; channels then differed in length and the
trigger failed.
---
 quakemigrate/io/scanmseed.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/scanmseed.py b/quakemigrate/io/scanmseed.py
index da6612a..be827c7 100644
--- a/quakemigrate/io/scanmseed.py
+++ b/quakemigrate/io/scanmseed.py
@@ -293,13 +293,20 @@ def read_scanmseed(run, starttime, endtime, pad, ucf):
         fstem = f"{now.year}_{now.julday:03d}"
         file = (fpath / fstem).with_suffix(".scanmseed")
         try:
+            # Read a little extra: obspy skips whole records that lie outside the window,
+            # even if they hold the sample nearest to its start or end
             scanmseed += read(
-                str(file), starttime=readstart, endtime=readend, format="MSEED"
+                str(file),
+                starttime=readstart - 10,
+                endtime=readend + 10,
+                format="MSEED",
             )
         except FileNotFoundError:
             logging.info(f"\n\t    No .scanmseed file found for day {fstem}!")
         dy += 1
 
+    scanmseed.trim(readstart, readend)
+
     if not bool(scanmseed):
         raise util.NoScanMseedDataException
 
-- 
2.43.0


From 00d05398b0d25570f00694b191fe28f903dc59cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 15/66] fix: keep events on the last sample before midnight at
 any sampling rate

---
 quakemigrate/signal/trigger.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index 71fa021..f8ac27d 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -340,11 +340,11 @@ class Trigger:
             self.run, batchstart, batchend, self.pad, self.lut.unit_conversion_factor
         )
 
-        # Check if the batch extends to midnight; if so, reduce 'batchend' by one sample
-        # to ensure consistent treatment of multi-day runs (midnight = next day, so not
-        # included).
+        # Check if the batch extends to midnight; if so, reduce 'batchend' by half a
+        # sample to ensure consistent treatment of multi-day runs (midnight = next day,
+        # so not included), whichever way the time of the last sample is rounded.
         if batchend.time == time(0, 0):
-            batchend -= stats.delta
+            batchend -= stats.delta / 2
 
         if self.smooth_coa:
             data = self._smooth_coa(data, stats.sampling_rate)
-- 
2.43.0


From 5ae46b680fc024659c9045803b046d7e0e559536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 16/66] fix: keep decimated grid nodes at their original
 positions

The first retained node is offset from the grid corner when the number of nodes is
not a multiple of the decimation factor.
---
 quakemigrate/lut/lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 310cc96..a8a8f67 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -127,6 +127,8 @@ class Grid3D:
         else:
             grid = copy.deepcopy(self)
 
+        # The first node of the decimated grid is not necessarily that of the original
+        grid.ll_corner = self.ll_corner + c1 * self.node_spacing
         grid.node_count = new_node_count
         grid.node_spacing = self.node_spacing * df
 
-- 
2.43.0


From b868bffd510a61d51e2ec013986a1de8ba8a6cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 17/66] fix: keep the station data of a lookup table loaded
 with LUT(lut_file=...)

---
 quakemigrate/lut/lut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index a8a8f67..e0dd8dd 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -464,11 +464,12 @@ class LUT(Grid3D):
         else:
             self.fraction_tt = fraction_tt
             self.phases = ["P", "S"]  # Handle old lookup tables
-            if lut_file is not None:
-                self.load(lut_file)
 
         self.station_data = pd.DataFrame()
 
+        if not grid_spec and lut_file is not None:
+            self.load(lut_file)
+
     def __str__(self):
         """Return short summary string of the lookup table object."""
 
-- 
2.43.0


From 96a1b47c741678cbdd5f855cdf5623e6cd948418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 18/66] fix: interpolate NonLinLoc tables relative to the
 origin of their grid

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 5c1b3b4..d7b4db7 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -746,7 +746,7 @@ def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
     i, k = np.floor((xz - xz_origin) / xz_dimensions).astype(int).T
 
     # Get fractional distance along each axis
-    x_d, z_d = (np.remainder(xz, xz_dimensions) / xz_dimensions).T
+    x_d, z_d = (np.remainder(xz - xz_origin, xz_dimensions) / xz_dimensions).T
 
     # Get 4 data points of surrounding square
     c00 = traveltimes[i, k]
-- 
2.43.0


From ea49cbd4926440c6d193afe654b56d2b8fb255e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 19/66] fix: use the origin of NonLinLoc transverse Mercator
 grids

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index d7b4db7..e895ed0 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -698,7 +698,7 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon=orig_lon, lat=orig_lat, units="km")
+            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
 
         transform = [gproj, cproj, line[1]]
 
-- 
2.43.0


From 478ed2a8f0610c10d08969d18da479dc026e9abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:05 +0000
Subject: [PATCH 20/66] fix: interpolate NonLinLoc tables consistently at
 points that fall on a node

The remainder of e.g. 1.0 by 0.1 is 0.09999..., while their quotient is 10.0, so the
traveltime was that of the next node.
---
 quakemigrate/lut/create_lut.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index e895ed0..786d5fd 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -743,10 +743,11 @@ def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
     """
 
     # Get indices of the nearest node
-    i, k = np.floor((xz - xz_origin) / xz_dimensions).astype(int).T
+    position = (xz - xz_origin) / xz_dimensions
+    i, k = np.floor(position).astype(int).T
 
     # Get fractional distance along each axis
-    x_d, z_d = (np.remainder(xz - xz_origin, xz_dimensions) / xz_dimensions).T
+    x_d, z_d = (position - np.floor(position)).T
 
     # Get 4 data points of surrounding square
     c00 = traveltimes[i, k]
-- 
2.43.0


From 0d9082977fa86f9dc7038755d1e0e09a36d54538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 21/66] fix: use the number of nodes of the tables in LUTs read
 from NonLinLoc grids

---
 quakemigrate/lut/create_lut.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 786d5fd..7a622d4 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -98,6 +98,10 @@ def read_nlloc(
                     coord_proj=cproj,
                     fraction_tt=fraction_tt,
                 )
+
+                # The transforms to and from geographic coordinates are not exact, so
+                # use the number of nodes of the tables, not one derived from corners
+                lut.node_count = node_count
             else:
                 _, _, traveltimes = _read_nlloc(file)
 
-- 
2.43.0


From 6a00e83e18b0ccefbb540a9beec114eb55af8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 22/66] fix: do not replace the traveltimes of stations both
 lookup tables have when adding LUTs

---
 quakemigrate/lut/lut.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index e0dd8dd..b571eb0 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -883,7 +883,8 @@ class LUT(Grid3D):
             return self
         else:
             if self == other:
-                self.traveltimes.update(other.traveltimes)
+                for station, traveltimes in other.traveltimes.items():
+                    self.traveltimes.setdefault(station, traveltimes)
                 return self
             else:
                 print("Grid definitions do not match - cannot combine.")
-- 
2.43.0


From 4054f27987c0379c9c212e74c913ed55b87d2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 23/66] fix: keep the station data of added stations when
 adding LUTs

---
 quakemigrate/lut/lut.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index b571eb0..5c3645f 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -883,8 +883,15 @@ class LUT(Grid3D):
             return self
         else:
             if self == other:
-                for station, traveltimes in other.traveltimes.items():
-                    self.traveltimes.setdefault(station, traveltimes)
+                new = [key for key in other.traveltimes if key not in self.traveltimes]
+                for station in new:
+                    self.traveltimes[station] = other.traveltimes[station]
+                if "Name" in other.station_data:
+                    added = other.station_data["Name"].isin(new)
+                    self.station_data = pd.concat(
+                        [self.station_data, other.station_data[added]],
+                        ignore_index=True,
+                    )
                 return self
             else:
                 print("Grid definitions do not match - cannot combine.")
-- 
2.43.0


From 9890145f342515bef9d6845ab85c3e87aa99dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 24/66] fix: marginalise the 4-D coalescence map over the whole
 marginal window

The last sample of the window was left out, so that the marginal window was not
centred on the origin time and did not match the trimmed coalescence data.
---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index 2d44e0b..b60052a 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -431,7 +431,7 @@ class Event:
             (self.coa_data["DT"] >= window_start) & (self.coa_data["DT"] <= window_end)
         ]
         self.map4d = self.map4d[
-            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1]
+            :, :, :, self.coa_data.index[0] : self.coa_data.index[-1] + 1
         ]
         self.coa_data.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 278924f29d58c4d5c79de3b20299de67b5fda72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 25/66] fix: do not lose the last timestamp of the event window
 through float truncation

---
 quakemigrate/io/event.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/event.py b/quakemigrate/io/event.py
index b60052a..50124c9 100644
--- a/quakemigrate/io/event.py
+++ b/quakemigrate/io/event.py
@@ -411,7 +411,7 @@ class Event:
         # Utilise the .times() method of `obspy.Trace` objects
         tr = Trace(
             header={
-                "npts": 4 * self.marginal_window * sampling_rate + 1,
+                "npts": round(4 * self.marginal_window * sampling_rate) + 1,
                 "sampling_rate": sampling_rate,
                 "starttime": self.trigger_time - 2 * self.marginal_window,
             }
-- 
2.43.0


From f2b21ca4687ff59bb751efa923569fcfe3998aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:39 +0000
Subject: [PATCH 26/66] fix: report the Gaussian location uncertainties along
 the axes of the grid

The widths along the principal axes of the fitted Gaussian were reported as X, Y
and Z uncertainties in the order the eigenvalues happened to be returned in.
---
 quakemigrate/signal/scan.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 0869c56..4a944c9 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -920,7 +920,7 @@ class QuakeScan:
                 P[2],
             ]
         ).reshape(3, 3)
-        egv, vec = np.linalg.eig(M)
+        egv, vec = np.linalg.eigh(M)
         sgm = np.sqrt(0.5 / np.clip(np.abs(egv), 1e-10, np.inf)) / 2
         val = np.exp(-K)
         csgm = np.sqrt(0.5 / np.clip(np.abs(M.diagonal()), 1e-10, np.inf))
@@ -932,7 +932,9 @@ class QuakeScan:
         location = [[gau_3d[0][0], gau_3d[0][1], gau_3d[0][2]]]
         location = self.lut.index2coord(location)[0]
 
-        uncertainty = sgm * self.lut.node_spacing
+        # The widths are those along the principal axes of the Gaussian, in no particular
+        # order: project them onto the axes of the grid
+        uncertainty = np.sqrt((vec**2) @ (sgm**2)) * self.lut.node_spacing
 
         return location, uncertainty
 
-- 
2.43.0


From 408eb7396e4429fb97f10d6b3290a78d89f7b181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 27/66] fix: separate pick windows by arrival order, not by the
 order phases are listed

With phases listed as S, P the windows of the two phases were set to the wrong
sides of the midpoint, so that neither contained its modelled arrival.
---
 quakemigrate/signal/pickers/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 2fa8c89..a00a468 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -301,6 +301,9 @@ class GaussianPicker(PhasePicker):
 
         """
 
+        # Phases are not necessarily listed in the order in which they arrive
+        phases = sorted(phases, key=lambda phase: windows[phase][1])
+
         # Handle first key
         first_idx = windows[phases[0]][0]
         windows[phases[0]][0] = 0 if first_idx < 0 else first_idx
-- 
2.43.0


From 2148fc50829f571f5e35ab3b74f5d730cf249ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:28 +0000
Subject: [PATCH 28/66] fix: do not fail to pick an event if an onset has no
 noise outside the pick windows

---
 quakemigrate/signal/pickers/gaussian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index a00a468..c8df81b 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -348,6 +348,10 @@ class GaussianPicker(PhasePicker):
         # pad windows)
         onset_noise = onset_noise[onset_noise > 1]
 
+        if not onset_noise.size:
+            # No noise to determine a threshold from: do not make a pick
+            return np.nan
+
         if method == "percentile":
             pick_threshold = np.percentile(
                 onset_noise, self.percentile_pick_threshold * 100
-- 
2.43.0


From 11645316141b45fc725a0812a5707d03f752c34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 29/66] fix: match traveltimes to stations by position when
 measuring amplitudes

The label of a row in the station table is not its position when the
table has been filtered or sorted.
---
 quakemigrate/signal/local_mag/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index b74947a..1245b16 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -279,7 +279,7 @@ class Amplitude:
         logging.debug(f"{tr_start}, {tr_end}, {event.otime}")
 
         # Loop through stations in LUT, calculating amplitude info
-        for i, station_data in lut.station_data.iterrows():
+        for i, (_, station_data) in enumerate(lut.station_data.iterrows()):
             station = station_data["Name"]
 
             epi_dist, z_dist = self._get_distances(
-- 
2.43.0


From 1dec9d864512e59f03b9dcb82cc44f859d7f6540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 30/66] fix: measure no amplitudes on a flat channel

Detrending and response removal leave rounding errors on a flat record,
so the later test for a flat window does not see it, and amplitudes some
twenty orders of magnitude too small entered the network magnitude.
---
 quakemigrate/signal/local_mag/amplitude.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index 1245b16..773dddb 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -333,6 +333,13 @@ class Amplitude:
 
                 amps[0] = tr.id
 
+                # A flat line holds no signal: do not measure rounding errors left by
+                # the response removal
+                if tr.data.max() == tr.data.min():
+                    logging.warning(f"Flat line - no amplitudes measured for {tr.id}")
+                    amplitudes.loc[i * 3 + j] = amps
+                    continue
+
                 # Do response removal
                 try:
                     tr = event.data.get_wa_waveform(tr, velocity=False)
-- 
2.43.0


From fae951df07f92efcc1812e558b3fc8abaf500a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 31/66] fix: keep zero distances in the amplitude table

Replacing them by NaN before taking logarithms overwrote the epicentral
distances of the table itself.
---
 quakemigrate/signal/local_mag/magnitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index c2cd2b6..c48d5d0 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -245,7 +245,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.to_numpy(copy=True)
         dist[dist == 0.0] = np.nan
 
         # Calculate magnitudes and associated errors
@@ -777,7 +777,7 @@ class Magnitude:
         if self.use_hyp_dist:
             dist = np.sqrt(edist.values**2 + zdist.values**2)
         else:
-            dist = edist.values
+            dist = edist.to_numpy(copy=True)
 
         # Apply distance filter
         if self.dist_filter:
-- 
2.43.0


From ec64e6f429a6ca7f011e9e8999357c2a568c627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 32/66] fix: weight the squared deviations in the weighted
 magnitude error

Squaring the weights with the deviations made the standard deviation
scale with the size of the weights.
---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index c48d5d0..77e970d 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -417,7 +417,7 @@ class Magnitude:
         # single estimate, then take the uncertainty from that value.
         if len(mags) > 1:
             mean_mag_err = np.sqrt(
-                np.sum(((mags - mean_mag) * weights) ** 2) / np.sum(weights)
+                np.sum(weights * (mags - mean_mag) ** 2) / np.sum(weights)
             )
         else:
             mean_mag_err = used_mags["ML_Err"].values[0]
-- 
2.43.0


From 51be8dcf7a631bc6250296af411f26e171fd8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 33/66] fix: leave unexpected observations out of the magnitude
 r-squared

The result of dropping them was thrown away.
---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 77e970d..f75e69f 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -888,7 +888,7 @@ class Magnitude:
                 # If predicted amp is more than 5x larger than noise amp, keep
                 # this observation for mag_r2 calculation
                 if predicted_amp / noise_amp < 5:
-                    magnitudes.drop(labels=mag.name)
+                    magnitudes = magnitudes.drop(labels=mag.name)
 
         # Calculate amplitudes -- including station corrections!
         amps = (
-- 
2.43.0


From d480d1ac9b90585582dc9072407ae2c6b38926b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 34/66] fix: average only channels which have a magnitude

A channel with an amplitude but no magnitude (amplitude below the noise,
or zero distance) turned the network average into NaN.
---
 quakemigrate/signal/local_mag/magnitude.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index f75e69f..f2a844a 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -800,6 +800,8 @@ class Magnitude:
             magnitudes.loc[~magnitudes["is_picked"], "Used"] = False
         if self.noise_filter != 0.0:
             magnitudes.loc[~magnitudes["Noise_Filter"], "Used"] = False
+        # Observations for which no magnitude could be calculated cannot contribute
+        magnitudes.loc[magnitudes["ML"].isnull(), "Used"] = False
 
         return magnitudes
 
-- 
2.43.0


From 9016e4580f9838b059e499edba0cc343ca2c3410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:06 +0000
Subject: [PATCH 35/66] fix: do not alter the magnitude table when averaging it

Averaging the same table twice corrected its noise amplitudes for the
filter gain twice.
---
 quakemigrate/signal/local_mag/magnitude.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index f2a844a..689d720 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -373,6 +373,9 @@ class Magnitude:
 
         """
 
+        # Work on a copy
+        magnitudes = magnitudes.copy()
+
         # Get station corrections
         corrs = [
             self.station_corrections[t] if t in self.station_corrections.keys() else 0.0
-- 
2.43.0


From 9ff2b24caba146e56d20eabdb4e29fcfe8d79de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 36/66] fix: leave out channels whose response has no poles and
 zeros or sensitivity

Such a channel raised an uncaught exception from get_real_waveform, which
ended the location run instead of omitting the one channel.
---
 quakemigrate/io/data.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 7ce39e0..177deec 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -698,7 +698,12 @@ class WaveformData:
                 raise util.ResponseNotFoundError(str(e), tr.id)
 
             # Get the instrument transfer function as a PAZ dictionary
-            paz = response.get_paz()
+            try:
+                paz = response.get_paz()
+                sensitivity = response.instrument_sensitivity.value
+            except Exception as e:
+                # No PolesAndZeros stage, or no overall sensitivity
+                raise util.ResponseNotFoundError(str(e), tr.id)
 
             if not velocity:
                 paz.zeros.extend([0j])
@@ -707,7 +712,7 @@ class WaveformData:
                 "poles": paz.poles,
                 "zeros": paz.zeros,
                 "gain": paz.normalization_factor,
-                "sensitivity": response.instrument_sensitivity.value,
+                "sensitivity": sensitivity,
             }
 
             try:
-- 
2.43.0


From d8a0d50531b70f6f011d40fbb7fa516050682f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 37/66] fix: account for the input units of the response when
 removing it

Poles and zeros were assumed to describe a velocity sensor, so records of
accelerometers (or displacement sensors) were output in the wrong units.
---
 quakemigrate/io/data.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index 177deec..d1d4beb 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -705,8 +705,18 @@ class WaveformData:
                 # No PolesAndZeros stage, or no overall sensitivity
                 raise util.ResponseNotFoundError(str(e), tr.id)
 
-            if not velocity:
-                paz.zeros.extend([0j])
+            # The poles and zeros relate the output to the motion the sensor measures:
+            # add those relating it to the requested motion
+            input_units = str(paz.input_units).upper()
+            order = {"M": 0, "M/S**2": 2, "M/(S**2)": 2, "M/S/S": 2}.get(input_units, 1)
+            n_zeros = order - (1 if velocity else 0)
+            if n_zeros > 0:
+                paz.zeros.extend([0j] * n_zeros)
+            elif n_zeros < 0:
+                try:
+                    paz.zeros.remove(0j)
+                except ValueError as e:
+                    raise util.ResponseRemovalError(e, tr.id)
 
             paz_dict = {
                 "poles": paz.poles,
-- 
2.43.0


From 229bbcf4d91248d2b42c39d72827f803ffac2b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 38/66] fix: cut waveforms in the requested units when
 magnitudes are calculated

Without a pre- or post-cut, the corrected waveforms left over from the
magnitude calculation were written instead: always displacement, trimmed to
the amplitude windows, and only for the channels measured.
---
 quakemigrate/io/cut_waveforms.py | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/quakemigrate/io/cut_waveforms.py b/quakemigrate/io/cut_waveforms.py
index 072321d..888114a 100644
--- a/quakemigrate/io/cut_waveforms.py
+++ b/quakemigrate/io/cut_waveforms.py
@@ -105,28 +105,16 @@ def write_cut_waveforms(
             st.remove(tr)
 
     if waveform_type == "real" or waveform_type == "wa":
-        if (
-            waveform_type == "real"
-            and isinstance(event.data.real_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.real_waveforms
-        elif (
-            waveform_type == "wa"
-            and isinstance(event.data.wa_waveforms, Stream)
-            and not pre_cut
-            and not post_cut
-        ):
-            st = event.data.wa_waveforms
-        else:
-            try:
-                st = get_waveforms(st, event, waveform_type, units)
-            except AttributeError as e:
-                raise AttributeError(
-                    "To output real or Wood-Anderson cut waveforms you must supply an "
-                    "instrument response inventory."
-                ) from e
+        # NOTE: waveforms already corrected for the magnitude calculation cannot be used
+        # here: they do not cover all data read for the event, and are always in units
+        # of displacement.
+        try:
+            st = get_waveforms(st, event, waveform_type, units)
+        except AttributeError as e:
+            raise AttributeError(
+                "To output real or Wood-Anderson cut waveforms you must supply an "
+                "instrument response inventory."
+            ) from e
 
     if bool(st):
         write_waveforms(st, fpath, fstem, file_format)
-- 
2.43.0


From 6fe694beffe8eaa66be3cd85e67abfc55106b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:37 +0000
Subject: [PATCH 39/66] fix: leave out channels whose full response cannot be
 removed

Besides ValueError, remove_response raises other exceptions for incomplete
responses (no stages, no overall sensitivity), which ended the location run.
---
 quakemigrate/io/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/io/data.py b/quakemigrate/io/data.py
index d1d4beb..4ca1804 100755
--- a/quakemigrate/io/data.py
+++ b/quakemigrate/io/data.py
@@ -749,7 +749,7 @@ class WaveformData:
                     water_level=self.water_level,
                     taper=True,
                 )
-            except ValueError as e:
+            except Exception as e:
                 raise util.ResponseRemovalError(e, tr.id)
 
         try:
-- 
2.43.0


From 54915061018c3c326168cfadeed7b539690af9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 40/66] fix: do not try to interpolate a single sample

An off-sample fragment of one sample (e.g. the edge of a gap) raised an
IndexError from shift_to_sample, which ended the run.
---
 quakemigrate/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 5110e08..8949f88 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -363,7 +363,8 @@ def shift_to_sample(stream, interpolate=False):
                 round(delta / 1e6 * tr.stats.sampling_rate) / tr.stats.sampling_rate
                 - delta / 1e6
             )
-            if not interpolate:
+            # There is nothing to interpolate between for a single sample
+            if not interpolate or tr.stats.npts < 2:
                 logging.info(
                     f"Trace\n\t{tr}\nhas off-sample data. Applying "
                     f"{time_shift:+f} s shift to timing."
-- 
2.43.0


From e3bf117ae6ae1e48bcc3aed54e91c94e29dce99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:16 +0000
Subject: [PATCH 41/66] fix: keep the names of stations when exporting picks

Station names made of digits lost their leading zeros, and a station named
"NA" was exported as "nan".
---
 quakemigrate/export/to_obspy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index af8b301..0a9e82c 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -215,7 +215,10 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
     # --- Handle picks file ---
     pick_file = locate_dir / "picks" / event_uid
     if pick_file.with_suffix(".picks").is_file():
-        picks = pd.read_csv(pick_file.with_suffix(".picks"))
+        # Station names may look like numbers, or missing values
+        picks = pd.read_csv(
+            pick_file.with_suffix(".picks"), converters={"Station": str}
+        )
     else:
         return None
 
-- 
2.43.0


From f772c89557e3e8cc91c79098615e8537a5ae2983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:16 +0000
Subject: [PATCH 42/66] fix: do not export a magnitude for events which have
 none

A network magnitude of nan was added to the exported event, and an event
file without magnitudes beside an amplitude file could not be read at all.
---
 quakemigrate/export/to_obspy.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index 0a9e82c..6eb3963 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -309,17 +309,19 @@ def _read_single_event(event_file, locate_dir, units, local_mag_ph):
 
                 event.amplitudes.append(amp)
 
-        mag = Magnitude()
-        mag.extra = AttribDict()
-        mag.mag = event_info["ML"]
-        mag.mag_errors.uncertainty = event_info["ML_Err"]
-        mag.magnitude_type = "ML"
-        # mag.origin_id = ?
-        mag.station_count = i
-        mag.evaluation_mode = "automatic"
-        mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
-
-        event.magnitudes = [mag]
-        event.preferred_magnitude_id = mag.resource_id
+        # There is no magnitude if no amplitudes could be measured
+        if not pd.isna(event_info.get("ML")):
+            mag = Magnitude()
+            mag.extra = AttribDict()
+            mag.mag = event_info["ML"]
+            mag.mag_errors.uncertainty = event_info["ML_Err"]
+            mag.magnitude_type = "ML"
+            # mag.origin_id = ?
+            mag.station_count = i
+            mag.evaluation_mode = "automatic"
+            mag.extra.r2 = {"value": event_info["ML_r2"], "namespace": ns}
+
+            event.magnitudes = [mag]
+            event.preferred_magnitude_id = mag.resource_id
 
     return event
-- 
2.43.0


From abeb6ae4df76ef603e74b8eb4ef931dd5f07d36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:16 +0000
Subject: [PATCH 43/66] fix: export an empty catalogue for a run without
 located events

read_quakemigrate raised UnboundLocalError when the run has no events
directory (i.e. no event was located).
---
 quakemigrate/export/to_obspy.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/quakemigrate/export/to_obspy.py b/quakemigrate/export/to_obspy.py
index 6eb3963..491c724 100644
--- a/quakemigrate/export/to_obspy.py
+++ b/quakemigrate/export/to_obspy.py
@@ -11,7 +11,6 @@ Catalog.
 
 """
 
-from itertools import chain
 import pathlib
 
 import pandas as pd
@@ -69,15 +68,7 @@ def read_quakemigrate(run_dir, units, run_subname="", local_mag_ph="S"):
     """
 
     locate_dir = pathlib.Path(run_dir) / "locate" / run_subname
-    events_dir = locate_dir / "events"
-
-    if events_dir.is_dir():
-        try:
-            event_files = events_dir.glob("*.event")
-            first = next(event_files)
-            event_files = chain([first], event_files)
-        except StopIteration:
-            pass
+    event_files = (locate_dir / "events").glob("*.event")
 
     cat = Catalog()
 
-- 
2.43.0


From ae313f20cc6347032a8a602f3b6af639ee923dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 44/66] fix: write the fractions of seconds of snuffler markers
 in full

Microseconds were written without leading zeros, so that e.g. 5 ms after
a second was read as half a second after it.
---
 quakemigrate/export/to_snuffler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index c578a6d..7f33409 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -98,7 +98,7 @@ def snuffler_markers(event, output_path, filename=None):
         hr=str(origin.time.hour).zfill(2),
         min=str(origin.time.minute).zfill(2),
         sec=str(origin.time.second).zfill(2),
-        msec=origin.time.microsecond,
+        msec=str(origin.time.microsecond).zfill(6),
         eventid=str(event.resource_id),
     )
 
@@ -118,7 +118,7 @@ def snuffler_markers(event, output_path, filename=None):
                 hr=str(pick.time.hour).zfill(2),
                 min=str(pick.time.minute).zfill(2),
                 sec=str(pick.time.second).zfill(2),
-                msec=pick.time.microsecond,
+                msec=str(pick.time.microsecond).zfill(6),
                 nw=pick.waveform_id.network_code,
                 stat=pick.waveform_id.station_code,
                 comp=comp,
-- 
2.43.0


From 18b082c70c75203ddb5fb9c114987fcdbe2d3528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 45/66] fix: give each snuffler station its own network code

The network of the first station was used for all of them.
---
 quakemigrate/export/to_snuffler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/quakemigrate/export/to_snuffler.py b/quakemigrate/export/to_snuffler.py
index 7f33409..e5ae7aa 100644
--- a/quakemigrate/export/to_snuffler.py
+++ b/quakemigrate/export/to_snuffler.py
@@ -38,13 +38,12 @@ def snuffler_stations(stations, output_path, filename, network_code=None):
     with output.open(mode="w") as f:
         for i, station in stations.iterrows():
             if network_code is None:
-                try:
-                    network_code = station["Network"]
-                except KeyError:
-                    network_code = ""
+                nw = station.get("Network", "")
+            else:
+                nw = network_code
 
             line = line_template.format(
-                nw=network_code,
+                nw=nw,
                 stat=station["Name"],
                 lat=station["Latitude"],
                 lon=station["Longitude"],
-- 
2.43.0


From 97f476f33de51c463e4853293c62ede575f7f00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 46/66] fix: write station elevations in metres to MFAST SAC
 files

Elevations in km were written as they are, those in m divided by 1000.
---
 quakemigrate/export/to_mfast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index ee45c67..26cab11 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -47,9 +47,9 @@ def sac_mfast(event, stations, output_path, units, filename=None):
 
     # Set distance conversion factor (from units of QM LUT projection units).
     if units == "km":
-        factor = 1
-    elif units == "m":
         factor = 1e3
+    elif units == "m":
+        factor = 1
     else:
         raise AttributeError(f"units must be 'km' or 'm'; not {units}")
 
@@ -75,7 +75,7 @@ def sac_mfast(event, stations, output_path, units, filename=None):
         station_header = AttribDict()
         station_header.stla = station.Latitude
         station_header.stlo = station.Longitude
-        station_header.stel = station.Elevation / factor  # convert to m
+        station_header.stel = station.Elevation * factor  # convert to m
 
         # Calculate the distance and azimuth between event and station
         dist, az, _ = gps2dist_azimuth(
-- 
2.43.0


From 760958c289f84d8479446868228f348980879562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:45 +0000
Subject: [PATCH 47/66] fix: export MFAST files for the components there are,
 with their own times

A station or component without data ended the export with an IndexError,
and pick and origin times were relative to the station's first trace even
for components starting at another time.
---
 quakemigrate/export/to_mfast.py | 34 ++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/quakemigrate/export/to_mfast.py b/quakemigrate/export/to_mfast.py
index 26cab11..ae013ca 100644
--- a/quakemigrate/export/to_mfast.py
+++ b/quakemigrate/export/to_mfast.py
@@ -95,31 +95,35 @@ def sac_mfast(event, stations, output_path, units, filename=None):
             # If no phase picks for this station, continue
             continue
 
-        reference = st[0].stats.starttime
-        origin_time = origin.time - reference
-        p_pick = s_pick = 0
+        p_time = s_time = None
         for pick in picks:
             if pick.phase_hint == "P":
-                p_pick = pick.time - reference
+                p_time = pick.time
             elif pick.phase_hint == "S":
-                s_pick = pick.time - reference
+                s_time = pick.time
 
-        if s_pick == 0:
+        if s_time is None:
             continue
 
         # Set pick error (think about good bounds?)
         kt5 = 1
 
-        pick_header = AttribDict()
-        pick_header.t0 = s_pick
-        pick_header.kt5 = str(kt5)
-        pick_header.kt0 = str(kt5)
-        pick_header.o = origin_time
-        if p_pick != 0:
-            pick_header.a = p_pick
-
         for comp in ["Z", "N", "E"]:
-            tr = st.select(channel=f"*{comp}")[0]
+            try:
+                tr = st.select(channel=f"*{comp}")[0]
+            except IndexError:
+                # No data for this component
+                continue
+
+            # Times are relative to the start of each trace
+            reference = tr.stats.starttime
+            pick_header = AttribDict()
+            pick_header.t0 = s_time - reference
+            pick_header.kt5 = str(kt5)
+            pick_header.kt0 = str(kt5)
+            pick_header.o = origin.time - reference
+            if p_time is not None:
+                pick_header.a = p_time - reference
 
             # Write out to SAC file, then read in again to fill header
             name = filename.format(station.Name, comp.lower())
-- 
2.43.0


From f7f7070a6496eadaf4308d3791544591186126a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 48/66] fix: require every documented column in the station
 file header

---
 quakemigrate/io/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 99f1463..50fd029 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -89,7 +89,8 @@ def read_stations(station_file, **kwargs):
 
     stn_data = pd.read_csv(station_file, **kwargs)
 
-    if ("Latitude" or "Longitude" or "Elevation" or "Name") not in stn_data.columns:
+    required = {"Latitude", "Longitude", "Elevation", "Name"}
+    if not required.issubset(stn_data.columns):
         raise util.StationFileHeaderException
 
     stn_data["Elevation"] = stn_data["Elevation"].apply(lambda x: -1 * x)
-- 
2.43.0


From 1525945028ea3f446408af4d25f3eff0ba4634a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 49/66] fix: read station names verbatim from the station file

---
 quakemigrate/io/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/io/core.py b/quakemigrate/io/core.py
index 50fd029..ceffeea 100644
--- a/quakemigrate/io/core.py
+++ b/quakemigrate/io/core.py
@@ -87,6 +87,8 @@ def read_stations(station_file, **kwargs):
 
     """
 
+    # Read station names verbatim, e.g. "007" or "NA"
+    kwargs["converters"] = {"Name": str.strip, **(kwargs.get("converters") or {})}
     stn_data = pd.read_csv(station_file, **kwargs)
 
     required = {"Latitude", "Longitude", "Elevation", "Name"}
-- 
2.43.0


From 9e7718b80b918ad60737fd2d73e42b55bdd5a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:14 +0000
Subject: [PATCH 50/66] fix: require both corner frequencies of the amplitude
 bandpass filter

---
 quakemigrate/signal/local_mag/amplitude.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/signal/local_mag/amplitude.py b/quakemigrate/signal/local_mag/amplitude.py
index 773dddb..29ff414 100644
--- a/quakemigrate/signal/local_mag/amplitude.py
+++ b/quakemigrate/signal/local_mag/amplitude.py
@@ -117,8 +117,8 @@ class Amplitude:
         self.bandpass_filter = amplitude_params.get("bandpass_filter", False)
         if self.bandpass_filter:
             try:
-                self.bandpass_lowcut = amplitude_params.get("bandpass_lowcut")
-                self.bandpass_highcut = amplitude_params.get("bandpass_highcut")
+                self.bandpass_lowcut = amplitude_params["bandpass_lowcut"]
+                self.bandpass_highcut = amplitude_params["bandpass_highcut"]
             except KeyError as e:
                 raise AttributeError(f"Bandpass filter frequencies not specified! {e}")
         self.filter_corners = amplitude_params.get("filter_corners", 4)
-- 
2.43.0


From c07cd8f6c99ab14dbe6e586a85cdc7a271c3effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 51/66] fix: decimate onto the sampling instants of the
 requested window

Data beginning part-way through the window (after a gap) were decimated from
their own first sample, so could end up between the sampling instants of the
other traces. With gaps allowed, the padded onset could then differ in length,
which ended the scan with a ValueError.
---
 quakemigrate/util.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index 8949f88..c0377c9 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -450,7 +450,7 @@ def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
         if sampling_rate != trace_sampling_rate:
             if (trace_sampling_rate % sampling_rate) == 0:
                 stream.remove(trace)
-                trace = decimate(trace, sampling_rate)
+                trace = decimate(trace, sampling_rate, starttime)
                 stream += trace
             elif resample and upfactor is not None:
                 # Check the upsampled sampling rate can be decimated to sr
@@ -459,7 +459,7 @@ def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
                 stream.remove(trace)
                 trace = upsample(trace, upfactor, starttime, endtime)
                 if trace_sampling_rate != sampling_rate:
-                    trace = decimate(trace, sampling_rate)
+                    trace = decimate(trace, sampling_rate, starttime)
                 stream += trace
             else:
                 logging.info(
@@ -478,7 +478,7 @@ def resample(stream, sampling_rate, resample, upfactor, starttime, endtime):
     return stream
 
 
-def decimate(trace, sampling_rate):
+def decimate(trace, sampling_rate, starttime=None):
     """
     Decimate a trace to achieve the desired sampling rate, sr.
 
@@ -491,6 +491,9 @@ def decimate(trace, sampling_rate):
         Trace to be decimated.
     sampling_rate : int
         Output sampling rate.
+    starttime : `obspy.UTCDateTime` object, optional
+        Retain the samples which are an integer number of (output) samples from this
+        time. By default, retain the first sample of the trace.
 
     Returns:
     --------
@@ -511,11 +514,15 @@ def decimate(trace, sampling_rate):
     trace.filter(
         "lowpass", freq=float(sampling_rate) / 2.000001, corners=2, zerophase=True
     )
-    trace.decimate(
-        factor=int(trace.stats.sampling_rate / sampling_rate),
-        strict_length=False,
-        no_filter=True,
-    )
+    factor = int(trace.stats.sampling_rate / sampling_rate)
+    if starttime is not None:
+        # Begin on a sample which is at one of the output sampling instants, so that all
+        # traces share them (e.g. the data following a gap)
+        offset = (trace.stats.starttime - starttime) * trace.stats.sampling_rate
+        skip = -int(round(offset)) % factor
+        trace.data = trace.data[skip:]
+        trace.stats.starttime += skip * trace.stats.delta
+    trace.decimate(factor=factor, strict_length=False, no_filter=True)
 
     return trace
 
-- 
2.43.0


From 45fe5283d60f0b9350ec09c1229ce89ba0549439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:39 +0000
Subject: [PATCH 52/66] fix: pad upsampled data with the value of the end
 sample

The constant pad was cast to int, so float data (or data already interpolated
onto the sampling grid) were padded with a truncated value.
---
 quakemigrate/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index c0377c9..eabedef 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -571,7 +571,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"Start pad = {start_pad}")
         # Add padding data (constant value)
-        start_fill = np.full(int(start_pad), trace.data[0], dtype=int)
+        start_fill = np.full(int(start_pad), trace.data[0])
         dnew = np.append(start_fill, dnew)
         # Calculate new starttime of trace
         new_starttime = trace.stats.starttime - start_pad / (
@@ -590,7 +590,7 @@ def upsample(trace, upfactor, starttime, endtime):
         )
         logging.debug(f"End pad = {end_pad}")
         # Add padding data (constant value)
-        end_fill = np.full(int(end_pad), trace.data[-1], dtype=int)
+        end_fill = np.full(int(end_pad), trace.data[-1])
         dnew = np.append(dnew, end_fill)
 
     out = Trace()
-- 
2.43.0


From 1fe5661019b27d2f67bc1ffc0b2c1dcfff7d3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 53/66] fix: don't treat timestamp rounding as off-sample
 timing

At rates whose sampling interval isn't an integer number of microseconds (30,
60 Hz...), on-sample data were given a rounding-error shift, so interpolation
lengthened the trace by a sample, or ended the read with a ValueError.
---
 quakemigrate/util.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/quakemigrate/util.py b/quakemigrate/util.py
index eabedef..b8e63be 100644
--- a/quakemigrate/util.py
+++ b/quakemigrate/util.py
@@ -350,7 +350,14 @@ def shift_to_sample(stream, interpolate=False):
         # Check if microsecond is divisible by sampling rate; only guaranteed to work
         # for sampling rates of 1 Hz or less
         delta = tr.stats.starttime.microsecond % (1e6 / tr.stats.sampling_rate)
-        if delta == 0:
+        # Calculate time shift to closest "on-sample" timestamp
+        time_shift = (
+            round(delta / 1e6 * tr.stats.sampling_rate) / tr.stats.sampling_rate
+            - delta / 1e6
+        )
+        # A shift smaller than the resolution of the timestamp is just rounding error,
+        # from a sampling interval that isn't an integer number of microseconds
+        if abs(time_shift) < 5e-7:
             if tr.stats.sampling_rate < 1.0:
                 logging.warning(
                     f"Trace\n\t{tr}\nhas a sampling rate less than 1 Hz, so off-sample "
@@ -358,11 +365,6 @@ def shift_to_sample(stream, interpolate=False):
                 )
             continue
         else:
-            # Calculate time shift to closest "on-sample" timestamp
-            time_shift = (
-                round(delta / 1e6 * tr.stats.sampling_rate) / tr.stats.sampling_rate
-                - delta / 1e6
-            )
             # There is nothing to interpolate between for a single sample
             if not interpolate or tr.stats.npts < 2:
                 logging.info(
-- 
2.43.0


From 583331ab8a4ac7afb99c7e452e8d227f1d81584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 54/66] fix: pad data for the lookup table of the scan when
 sharing an onset

---
 quakemigrate/signal/scan.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 4a944c9..023f42e 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -423,6 +423,8 @@ class QuakeScan:
             self.run, self.continuous_scanmseed_write, self.scan_rate
         )
 
+        # The onset may have been shared with a scan that uses another lookup table
+        self.onset.post_pad = self.lut.max_traveltime
         self.pre_pad, self.post_pad = self.onset.pad(self.timestep)
         availability_cols = np.array(
             [
@@ -492,6 +494,8 @@ class QuakeScan:
         triggered_events = read_triggered_events(self.run, **kwargs)
         n_events = len(triggered_events.index)
 
+        # The onset may have been shared with a scan that uses another lookup table
+        self.onset.post_pad = self.lut.max_traveltime
         self.pre_pad, self.post_pad = self.onset.pad(4 * self.marginal_window)
 
         for i, triggered_event in triggered_events.iterrows():
-- 
2.43.0


From d334ef07521f6f6c36b38b0e58542784f5eb27e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 55/66] fix: pick with the taper pad of the data when the
 picker has its own onset

---
 quakemigrate/signal/pickers/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index c8df81b..348b644 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -138,6 +138,9 @@ class GaussianPicker(PhasePicker):
 
         """
 
+        # The onset may be separate from that of the scan, which sets its own
+        self.onset.post_pad = lut.max_traveltime
+
         # Onsets are recalculated without logging
         _, onset_data = self.onset.calculate_onsets(
             event.data, timespan=4 * event.marginal_window
-- 
2.43.0


From 436b270338f5605710d8c4ea5e79d6e5dd354e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:13 +0000
Subject: [PATCH 56/66] fix: don't share traveltime tables between combined
 lookup tables

---
 quakemigrate/lut/lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index 5c3645f..d7e5cbb 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -885,7 +885,7 @@ class LUT(Grid3D):
             if self == other:
                 new = [key for key in other.traveltimes if key not in self.traveltimes]
                 for station in new:
-                    self.traveltimes[station] = other.traveltimes[station]
+                    self.traveltimes[station] = dict(other.traveltimes[station])
                 if "Name" in other.station_data:
                     added = other.station_data["Name"].isin(new)
                     self.station_data = pd.concat(
-- 
2.43.0


From 182a47b9224e4c9cef1ccbf5f2cf16276ceb02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 57/66] fix: keep the onset null where data resume after a gap

Gaps were filled with a tiny value, so the onset was the ratio of real data to that value
(infinite, or nearly) wherever the long-term window held only fill. Locate then failed on
an event close to the end of a gap.
---
 quakemigrate/signal/onsets/stalta.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/quakemigrate/signal/onsets/stalta.py b/quakemigrate/signal/onsets/stalta.py
index 8a16aee..87975a5 100644
--- a/quakemigrate/signal/onsets/stalta.py
+++ b/quakemigrate/signal/onsets/stalta.py
@@ -442,18 +442,16 @@ class STALTAOnset(Onset):
                         to_remove = waveforms.select(id=key)
                         [waveforms.remove(tr) for tr in to_remove]
 
-                # Pad with tiny floats so onset will be the correct length.
+                # Pad with zeros so onset will be the correct length, and null (= 1)
+                # where there is no data in the long-term window.
                 # Note: this will only have an effect if allow_gaps=True or
                 # full_timespan=False. Otherwise, there will be no gaps to pad.
                 if self.allow_gaps or not self.full_timespan:
-                    # Square root to avoid floating point errors when value
-                    # is squared to compute the energy trace
-                    tiny = np.sqrt(np.finfo(float).tiny)
                     # Apply another taper to remove transients from filtering -
                     # this is within the pre- and post-pad for continuous data
                     waveforms.taper(type="cosine", max_percentage=0.05)
                     # Fill gaps
-                    waveforms.merge(method=1, fill_value=tiny)
+                    waveforms.merge(method=1, fill_value=0.0)
                     # Pad start/end; delta of +/-0.00001 is to avoid
                     # occasional obspy weirdness. `nearest_sample` is
                     # appropriate as data is at uniform sampling rate with
@@ -462,7 +460,7 @@ class STALTAOnset(Onset):
                         starttime=data.starttime - 0.00001,
                         endtime=data.endtime + 0.00001,
                         pad=True,
-                        fill_value=tiny,
+                        fill_value=0.0,
                         nearest_sample=False,
                     )
 
-- 
2.43.0


From f1b9ec17bf5bf8710719e41e5781945791f8aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:36 +0000
Subject: [PATCH 58/66] fix: place NonLinLoc tables with the SIMPLE transform
 where they belong

Longitudes were scaled as at the equator, instead of by the cosine of the latitude.
---
 quakemigrate/lut/create_lut.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 7a622d4..949b423 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -646,8 +646,15 @@ def _read_nlloc(fname, ignore_proj=False):
             orig_lat = float(line[3])
             orig_lon = float(line[5])
 
-            # The simple projection is the Plate Carree/Equidistant Cylindrical
-            gproj = Proj(proj="eqc", lat_0=orig_lat, lon_0=orig_lon, units="km")
+            # The simple projection has 10000 / 90 km per degree of latitude, and this
+            # times cos(latitude) per degree of longitude, i.e. it is sinusoidal
+            gproj = Proj(
+                proj="sinu",
+                lon_0=orig_lon,
+                y_0=-orig_lat * 1e7 / 90,
+                R=np.degrees(1e7 / 90),
+                units="km",
+            )
         elif line[1] == "LAMBERT":
             proj_ellipsoid = line[3]
             orig_lat = float(line[5])
-- 
2.43.0


From d908f33f8beeab61472f491d7c31b04c649b2203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:36 +0000
Subject: [PATCH 59/66] fix: refuse NonLinLoc tables on a rotated grid

The rotation was ignored, which misplaced the nodes.
---
 quakemigrate/lut/create_lut.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index 949b423..a643976 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -640,6 +640,8 @@ def _read_nlloc(fname, ignore_proj=False):
         line = f.readline().split()
         cproj = Proj(proj="longlat", ellps="WGS84", datum="WGS84", no_defs=True)
         gproj = None
+        if "RotCW" in line and float(line[line.index("RotCW") + 1]) != 0.0:
+            raise NotImplementedError(f"Rotated grid not supported: {' '.join(line)}")
         if line[1] == "NONE" and not ignore_proj:
             logging.info("\tNo projection selected.")
         elif line[1] == "SIMPLE":
-- 
2.43.0


From 1dcdebfcbf79c96b0ec428dc4acf507db14f5d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:36 +0000
Subject: [PATCH 60/66] fix: use the reference ellipsoid of NonLinLoc tables

It was overridden by the datum for LAMBERT, and not read for TRANS_MERC.
---
 quakemigrate/lut/create_lut.py | 97 +++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 36 deletions(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index a643976..a05d7bd 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -658,45 +658,12 @@ def _read_nlloc(fname, ignore_proj=False):
                 units="km",
             )
         elif line[1] == "LAMBERT":
-            proj_ellipsoid = line[3]
+            proj_ellipsoid = _get_ellipsoid(line[3])
             orig_lat = float(line[5])
             orig_lon = float(line[7])
             parallel_1 = float(line[9])
             parallel_2 = float(line[11])
 
-            if proj_ellipsoid == "WGS-84":
-                proj_ellipsoid = "WGS84"
-            elif proj_ellipsoid == "GRS-80":
-                proj_ellipsoid = "GRS80"
-            elif proj_ellipsoid == "WGS-72":
-                proj_ellipsoid = "WGS72"
-            elif proj_ellipsoid == "Australian":
-                proj_ellipsoid = "aust_SA"
-            elif proj_ellipsoid == "Krasovsky":
-                proj_ellipsoid = "krass"
-            elif proj_ellipsoid == "International":
-                proj_ellipsoid = "intl"
-            elif proj_ellipsoid == "Hayford-1909":
-                proj_ellipsoid = "intl"
-            elif proj_ellipsoid == "Clarke-1880":
-                proj_ellipsoid = "clrk80"
-            elif proj_ellipsoid == "Clarke-1866":
-                proj_ellipsoid = "clrk66"
-            elif proj_ellipsoid == "Airy":
-                proj_ellipsoid = "airy"
-            elif proj_ellipsoid == "Bessel":
-                proj_ellipsoid = "bessel"
-            elif proj_ellipsoid == "Hayford-1830":
-                proj_ellipsoid = "evrst30"
-            elif proj_ellipsoid == "Sphere":
-                proj_ellipsoid = "sphere"
-            else:
-                logging.info(
-                    f"Projection Ellipsoid {proj_ellipsoid} not supported!\n\tPlease "
-                    "notify the QuakeMigrate developers.\n\n\tWGS-84 used instead...\n"
-                )
-                proj_ellipsoid = "WGS84"
-
             gproj = Proj(
                 proj="lcc",
                 lon_0=orig_lon,
@@ -705,13 +672,19 @@ def _read_nlloc(fname, ignore_proj=False):
                 lat_2=parallel_2,
                 units="km",
                 ellps=proj_ellipsoid,
-                datum="WGS84",
             )
         elif line[1] == "TRANS_MERC":
+            proj_ellipsoid = _get_ellipsoid(line[3])
             orig_lat = float(line[5])
             orig_lon = float(line[7])
 
-            gproj = Proj(proj="tmerc", lon_0=orig_lon, lat_0=orig_lat, units="km")
+            gproj = Proj(
+                proj="tmerc",
+                lon_0=orig_lon,
+                lat_0=orig_lat,
+                units="km",
+                ellps=proj_ellipsoid,
+            )
 
         transform = [gproj, cproj, line[1]]
 
@@ -726,6 +699,58 @@ def _read_nlloc(fname, ignore_proj=False):
     return gridspec, transform, traveltimes
 
 
+def _get_ellipsoid(proj_ellipsoid):
+    """
+    Get the PROJ name of a reference ellipsoid used in a NonLinLoc header file.
+
+    Parameters
+    ----------
+    proj_ellipsoid : str
+        Name of the reference ellipsoid in the NonLinLoc header file.
+
+    Returns
+    -------
+    proj_ellipsoid : str
+        Name of the reference ellipsoid in PROJ.
+
+    """
+
+    if proj_ellipsoid == "WGS-84":
+        proj_ellipsoid = "WGS84"
+    elif proj_ellipsoid == "GRS-80":
+        proj_ellipsoid = "GRS80"
+    elif proj_ellipsoid == "WGS-72":
+        proj_ellipsoid = "WGS72"
+    elif proj_ellipsoid == "Australian":
+        proj_ellipsoid = "aust_SA"
+    elif proj_ellipsoid == "Krasovsky":
+        proj_ellipsoid = "krass"
+    elif proj_ellipsoid == "International":
+        proj_ellipsoid = "intl"
+    elif proj_ellipsoid == "Hayford-1909":
+        proj_ellipsoid = "intl"
+    elif proj_ellipsoid == "Clarke-1880":
+        proj_ellipsoid = "clrk80"
+    elif proj_ellipsoid == "Clarke-1866":
+        proj_ellipsoid = "clrk66"
+    elif proj_ellipsoid == "Airy":
+        proj_ellipsoid = "airy"
+    elif proj_ellipsoid == "Bessel":
+        proj_ellipsoid = "bessel"
+    elif proj_ellipsoid == "Hayford-1830":
+        proj_ellipsoid = "evrst30"
+    elif proj_ellipsoid == "Sphere":
+        proj_ellipsoid = "sphere"
+    else:
+        logging.info(
+            f"Projection Ellipsoid {proj_ellipsoid} not supported!\n\tPlease "
+            "notify the QuakeMigrate developers.\n\n\tWGS-84 used instead...\n"
+        )
+        proj_ellipsoid = "WGS84"
+
+    return proj_ellipsoid
+
+
 def _bilinear_interpolate(xz, xz_origin, xz_dimensions, traveltimes):
     """
     Perform a bi-linear interpolation between 4 data points on the input 2-D lookup
-- 
2.43.0


From 9ed7482dd5d9b4f11273b17ed23729e39aae5983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 61/66] fix: accept the deprecated sampling_rate argument of
 QuakeScan

---
 quakemigrate/signal/scan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/scan.py b/quakemigrate/signal/scan.py
index 023f42e..fe37ecc 100755
--- a/quakemigrate/signal/scan.py
+++ b/quakemigrate/signal/scan.py
@@ -243,8 +243,8 @@ class QuakeScan:
         # General QuakeScan parameters
         self.threads = kwargs.get("threads", 1)
         self.n_cores = kwargs.get("n_cores")  # DEPRECATING
-        self.sampling_rate = kwargs.get("sampling_rate")  # DEPRECATING
         self.scan_rate = self.onset.sampling_rate
+        self.sampling_rate = kwargs.get("sampling_rate")  # DEPRECATING
 
         # Magnitudes
         mags = kwargs.get("mags")
-- 
2.43.0


From b7dd0b522902f8b4058f2a970c6e0e4806ac4910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 62/66] fix: accept the deprecated minimum_repeat argument with
 any marginal window

---
 quakemigrate/signal/trigger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quakemigrate/signal/trigger.py b/quakemigrate/signal/trigger.py
index f8ac27d..9406390 100755
--- a/quakemigrate/signal/trigger.py
+++ b/quakemigrate/signal/trigger.py
@@ -218,9 +218,10 @@ class Trigger:
         self.median_multiplier = kwargs.get("median_multiplier", 1.2)
 
         self.marginal_window = kwargs.get("marginal_window", 2.0)
-        self.min_event_interval = kwargs.get("min_event_interval", 4.0)
         if kwargs.get("minimum_repeat"):
             self.minimum_repeat = kwargs.get("minimum_repeat")
+        else:
+            self.min_event_interval = kwargs.get("min_event_interval", 4.0)
         self.normalise_coalescence = kwargs.get("normalise_coalescence", False)
         self.pad = kwargs.get("pad", 120.0)
         self.smooth_coa = kwargs.get("smooth_coa", False)
-- 
2.43.0


From f1f7f62f9953016346441af62fb10aa7855911a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 63/66] fix: accept station_corrections=None, the documented
 default

---
 quakemigrate/signal/local_mag/magnitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/signal/local_mag/magnitude.py b/quakemigrate/signal/local_mag/magnitude.py
index 689d720..b3635ce 100644
--- a/quakemigrate/signal/local_mag/magnitude.py
+++ b/quakemigrate/signal/local_mag/magnitude.py
@@ -108,7 +108,7 @@ class Magnitude:
             raise TypeError("A0 attenuation correction not specified in params!")
         self.use_hyp_dist = magnitude_params.get("use_hyp_dist", False)
         self.amp_feature = magnitude_params.get("amp_feature", "S_amp")
-        self.station_corrections = magnitude_params.get("station_corrections", {})
+        self.station_corrections = magnitude_params.get("station_corrections") or {}
         self.amp_multiplier = magnitude_params.get("amp_multiplier", 1.0)
 
         # Parameters for mean magnitude calculation
-- 
2.43.0


From 2d74c0864f77d997a8d334d2df1d253a284a549f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 64/66] fix: print the corners of a lookup table the right way
 round

---
 quakemigrate/lut/lut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quakemigrate/lut/lut.py b/quakemigrate/lut/lut.py
index d7e5cbb..863ee6b 100644
--- a/quakemigrate/lut/lut.py
+++ b/quakemigrate/lut/lut.py
@@ -487,11 +487,11 @@ class LUT(Grid3D):
         )
 
         out = out.format(
-            lat1=ll[0],
-            lon1=ll[1],
+            lat1=ll[1],
+            lon1=ll[0],
             dep1=ll[2],
-            lat2=ur[0],
-            lon2=ur[1],
+            lat2=ur[1],
+            lon2=ur[0],
             dep2=ur[2],
             unit_name=self.unit_name,
         )
-- 
2.43.0


From 52246b68536e7b9dc437c9173ba0d33f20f24978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 65/66] fix: name the unit of a homogeneous velocity model
 after the grid

---
 quakemigrate/lut/create_lut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quakemigrate/lut/create_lut.py b/quakemigrate/lut/create_lut.py
index a05d7bd..bd54163 100644
--- a/quakemigrate/lut/create_lut.py
+++ b/quakemigrate/lut/create_lut.py
@@ -200,7 +200,7 @@ def compute_traveltimes(
             velocity = kwargs.get(f"v{phase.lower()}")
             if velocity is None:
                 raise TypeError(f"Missing argument: 'v{phase.lower()}'")
-            lut.velocity_model += f"\n\tV{phase.lower()} = {velocity:5.2f} m/s"
+            lut.velocity_model += f"\n\tV{phase.lower()} = {velocity:5.2f} {lut.unit_name}/s"
 
             logging.info(f"\t...phase: {phase}...")
             _compute_homogeneous(lut, phase, velocity)
-- 
2.43.0


From 9816ccc9a4048afe78e74e7e3c63eb8fd090ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:17 +0000
Subject: [PATCH 66/66] fix: set both pick thresholds of the GaussianPicker to
 their defaults

---
 quakemigrate/signal/pickers/gaussian.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/quakemigrate/signal/pickers/gaussian.py b/quakemigrate/signal/pickers/gaussian.py
index 348b644..f1edd0a 100644
--- a/quakemigrate/signal/pickers/gaussian.py
+++ b/quakemigrate/signal/pickers/gaussian.py
@@ -74,14 +74,10 @@ class GaussianPicker(PhasePicker):
 
         # --- Get pick method and threshold ---
         self.threshold_method = kwargs.get("threshold_method", "MAD")
-        if self.threshold_method == "percentile":
-            self.percentile_pick_threshold = kwargs.get(
-                "percentile_pick_threshold", 1.0
-            )
-        elif self.threshold_method == "MAD":
-            self.mad_pick_threshold = kwargs.get("mad_pick_threshold", 8.0)
-        else:
+        if self.threshold_method not in ["percentile", "MAD"]:
             raise util.InvalidPickThresholdMethodException
+        self.percentile_pick_threshold = kwargs.get("percentile_pick_threshold", 1.0)
+        self.mad_pick_threshold = kwargs.get("mad_pick_threshold", 8.0)
         # Handle deprecated `pick_threshold`
         if kwargs.get("pick_threshold"):
             self.pick_threshold = kwargs["pick_threshold"]
-- 
2.43.0

