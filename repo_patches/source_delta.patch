From 67a12c7c59ab518d017e30bc607e12b8ed44b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 01/42] fix: moveout used the reference slowness of an earlier
 call with the same phase

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 4b8cc66..5718cd0 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -134,9 +134,10 @@ class SimpleModel(object):
             raise ValueError(msg % phase)
         phase = phase.upper()
         try:
-            t_ref = self.t_ref[phase]
+            t_ref = self.t_ref[(phase, ref)]
         except KeyError:
-            self.t_ref[phase] = t_ref = self.calculate_delay_times(ref, phase)
+            t_ref = self.calculate_delay_times(ref, phase)
+            self.t_ref[(phase, ref)] = t_ref
         t = self.calculate_delay_times(slowness, phase)
         if phase[0] == 'S':
             t_ref = -t_ref
-- 
2.43.0


From 38863f2a610fdd44cb5783d3282ac00b525cdba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 02/42] fix: moveout filled data with nan if the reference
 phase turns above the deepest layer

---
 rf/simple_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 5718cd0..8c30584 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -143,7 +143,7 @@ class SimpleModel(object):
             t_ref = -t_ref
             t = -t
         try:
-            index = np.nonzero(np.isnan(t))[0][0] - 1
+            index = np.nonzero(np.isnan(t + t_ref))[0][0] - 1
         except IndexError:
             index = len(t)
         t = t[:index]
-- 
2.43.0


From 2e47de25497827087b3faae9912e5c3eea2bccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 03/42] fix: depth axis of profile plot was off by one model
 layer

---
 rf/imaging.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 532454f..5e092bb 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -347,8 +347,11 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
             dkm = 200
         d1 = np.arange(20) * dkm
         d2 = np.arange(100) * dkm / 5
-        t1 = np.interp(d1, model.z, pd)
-        t2 = np.interp(d2, model.z, pd)
+        # pd are the delay times at the bottom of each layer
+        z = np.hstack((model.z[0], model.z + model.dz))
+        pd = np.hstack((0, pd))
+        t1 = np.interp(d1, z, pd)
+        t2 = np.interp(d2, z, pd)
         myLocator = FixedLocator(t1)
         myMinorLocator = FixedLocator(t2)
         myFormatter = FixedFormatter([str(i) for i in d1])
-- 
2.43.0


From 4854487e56c28a6a8d205f82c55a6e1ddc15fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 04/42] fix: moveout for models without duplicated first row,
 zero delay has to stay at zero

---
 rf/simple_model.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 8c30584..b670f56 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -146,10 +146,11 @@ class SimpleModel(object):
             index = np.nonzero(np.isnan(t + t_ref))[0][0] - 1
         except IndexError:
             index = len(t)
-        t = t[:index]
-        t_ref = t_ref[:index]
-        return (np.hstack((-t[1:10][::-1], t)),
-                np.hstack((-t_ref[1:10][::-1], t_ref)))
+        # delay time is zero at the surface
+        t = np.hstack((0, t[:index]))
+        t_ref = np.hstack((0, t_ref[:index]))
+        return (np.hstack((-t[1:11][::-1], t)),
+                np.hstack((-t_ref[1:11][::-1], t_ref)))
 
     def moveout(self, stream, phase='Ps', ref=6.4):
         """
-- 
2.43.0


From 0ced3a30e7796fa4610d1f698b021f807082ccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 05/42] fix: failed write left renamed traces and changed HDF5
 index, harmonics could not be written to HDF5

---
 rf/rfstream.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9e113d0..b2ecd38 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -194,24 +194,32 @@ class RFStream(Stream):
         """
         if len(self) == 0:
             return
+        index = None
         for tr in self:
             tr._write_format_specific_header(format, sh_compat=sh_compat)
-            if format.upper() == 'Q':
-                tr.stats.station = tr.id
         if format.upper() == 'H5':
             index = self.type
             if index is None and 'event_time' in self[0].stats:
                 index = 'rf'
+            # use default index for types without specific index
+            index = _H5INDEX.get(index)
             if index:
                 import obspyh5
                 old_index = obspyh5._INDEX
-                obspyh5.set_index(_H5INDEX[index])
-        super(RFStream, self).write(filename, format, **kwargs)
-        if format.upper() == 'H5' and index:
-            obspyh5.set_index(old_index)
-        if format.upper() == 'Q':
+                obspyh5.set_index(index)
+        elif format.upper() == 'Q':
+            stations = [tr.stats.station for tr in self]
             for tr in self:
-                tr.stats.station = tr.stats.station.split('.')[1]
+                tr.stats.station = tr.id
+        try:
+            super(RFStream, self).write(filename, format, **kwargs)
+        finally:
+            # restore old state even if writing fails
+            if index:
+                obspyh5.set_index(old_index)
+            if format.upper() == 'Q':
+                for tr, station in zip(self, stations):
+                    tr.stats.station = station
 
     def trim2(self, starttime=None, endtime=None, reftime=None, **kwargs):
         """
-- 
2.43.0


From d61d5bd2b5073392bf254745056240a7a7439744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 06/42] fix: stacked traces got the headers of the first trace
 in the stream, which can be a different station

---
 rf/rfstream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index b2ecd38..0ee6a51 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -418,11 +418,12 @@ class RFStream(Stream):
         id.
         """
         ids = set(tr.id for tr in self)
-        tr = self[0]
         traces = []
         for id in ids:
             net, sta, loc, cha = id.split('.')
-            data = np.mean([tr.data for tr in self if tr.id == id], axis=0)
+            substream = [tr for tr in self if tr.id == id]
+            tr = substream[0]
+            data = np.mean([tr2.data for tr2 in substream], axis=0)
             header = {'network': net, 'station': sta, 'location': loc,
                       'channel': cha, 'sampling_rate': tr.stats.sampling_rate}
             for entry in ('phase', 'moveout', 'station_latitude',
-- 
2.43.0


From 836d1975ac4559072a3997be10095d210d6d52a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:52 +0000
Subject: [PATCH 07/42] fix: stack and profile shared the list of processing
 information with the original traces

---
 rf/profile.py  | 4 +++-
 rf/rfstream.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rf/profile.py b/rf/profile.py
index 07893a3..3488c5d 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -3,6 +3,8 @@
 """
 Functions for receiver function profile calculation.
 """
+from copy import copy
+
 import numpy as np
 from rf.util import _add_processing_info, direct_geodetic
 
@@ -105,7 +107,7 @@ def profile(stream, boxes, crs=None):
                       'channel': '??' + comp}
             for entry in ('slowness', 'phase', 'moveout', 'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = copy(tr.stats[entry])
             stack[key] = tr2 = tr.__class__(data=tr.data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
diff --git a/rf/rfstream.py b/rf/rfstream.py
index 0ee6a51..f0be315 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -3,6 +3,7 @@
 """
 Classes and functions for receiver function calculation.
 """
+from copy import copy
 import json
 from operator import itemgetter
 from pkg_resources import resource_filename
@@ -430,7 +431,7 @@ class RFStream(Stream):
                           'station_longitude', 'station_elevation',
                           'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = copy(tr.stats[entry])
             tr2 = RFTrace(data=data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From 7a7b85e66cef6b32fe0af93ac306064c819f915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 08/42] fix: deconv_waterlevel failed for normalize=None with a
 single response or return_info

---
 rf/deconvolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index ebc0f7d..05017a8 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -229,7 +229,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
         for rf in rf_list:
             rf *= norm
     if return_info:
-        if normalize not in (None, 'src'):
+        if normalize != 'src':
             spec_src = ffilt * spec_src * spec_src_conj / spec_src_water
             rf_src = ifft(spec_src, nfft)[:N]
             norm = 1 / max(rf_src)
@@ -240,7 +240,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
                 'gauss': ffilt, 'norm': norm, 'N': N, 'nfft': nfft}
         return rf_list, info
     elif flag:
-        return rf
+        return rf_list[0]
     else:
         return rf_list
 
-- 
2.43.0


From f9f4686961b6e7a6b333c2fb667fb939828cdbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 09/42] fix: deconv_iterative failed for a single response
 array

---
 rf/deconvolve.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 05017a8..b130d3c 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -466,6 +466,10 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
     :return: (list of) array(s) with deconvolution(s)
     """
 
+    flag = False
+    if not isinstance(rsp, (list, tuple)) and np.ndim(rsp) == 1:
+        flag = True
+        rsp = [rsp]
     ncomp = len(rsp)    # number of components we're looping over here
     dt = 1 / sampling_rate
     RF_out = []
@@ -518,6 +522,8 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
         for RF in RF_out:
             RF *= norm
 
+    if flag:
+        return RF_out[0], it_out[0], rms_out[0]
     return RF_out, it_out, rms_out
 
 
-- 
2.43.0


From 236d3b4eb8754ca8bc409e15abc7f9a97b6f80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 10/42] fix: time domain deconvolution was off by one sample
 for source windows of even length starting at or after onset

---
 rf/deconvolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index b130d3c..8c51334 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -282,7 +282,7 @@ def _xcorrt(a, b, num, zero_sample=0):
         a = _add_zeros(a, 0, 2 * abs(zero_sample))
     dif = len(a) - len(b) + 1 - num
     if dif > 0:
-        b = _add_zeros(b, (dif + 1) // 2, dif // 2)
+        b = _add_zeros(b, dif // 2, (dif + 1) // 2)
     else:
         a = _add_zeros(a, (-dif + 1) // 2, (-dif) // 2)
     return correlate(a, b, 'valid')
-- 
2.43.0


From 3d327d8c28f5ddf390a95eac25b77f1c40d3bcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 11/42] fix: deconvolve cut and tapered the source trace of the
 stream if it is not part of the response

---
 rf/deconvolve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 8c51334..c6b6414 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -118,8 +118,7 @@ def deconvolve(stream, method='time', func=None,
 #    if winsrc[1] > lenrsp_sec - onset_sec:
 #        winsrc[1] = lenrsp_sec - onset_sec
     # prepare source and response list
-    if src in rsp:
-        src = src.copy()
+    src = src.copy()
     src.trim(onset + winsrc[0], onset + winsrc[1], pad=True, fill_value=0.)
     src.taper(max_percentage=None, max_length=winsrc[2])
     tshift = -winsrc[0]
-- 
2.43.0


From 6dd2bb90815dbe26a5dd673d7da59b9d02a4e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 12/42] fix: rfstats ignored event or station if only one of
 them was given

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index f0be315..bfb97cc 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -710,7 +710,7 @@ def rfstats(obj=None, event=None, station=None,
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
     stats = AttribDict({}) if obj is None else obj
-    if event is not None and station is not None:
+    if event is not None or station is not None:
         stats.update(obj2stats(event=event, station=station))
     dist, baz, _ = gps2dist_azimuth(stats.station_latitude,
                                     stats.station_longitude,
-- 
2.43.0


From 8dd4c082724b507c2744469e9f84c40b56edb6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 13/42] fix: rf method accepted empty string and 'PS' as method

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index bfb97cc..d317a83 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -318,7 +318,7 @@ class RFStream(Stream):
 
         if method is None:
             method = self.method
-        if method is None or method not in 'PS':
+        if method not in ('P', 'S'):
             msg = "method must be one of 'P', 'S', but is '%s'"
             raise ValueError(msg % method)
         if source_components is None:
-- 
2.43.0


From bbb8b3527d100d592416bf4a9858f175c3261e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 14/42] fix: rf downsample failed for non-integer frequencies

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index d317a83..393953b 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -330,7 +330,7 @@ class RFStream(Stream):
         if downsample:
             for tr in self:
                 if downsample <= tr.stats.sampling_rate:
-                    tr.decimate(int(tr.stats.sampling_rate) // downsample)
+                    tr.decimate(int(tr.stats.sampling_rate / downsample + 1e-6))
         if rotate:
             for stream3c in iter3c(self):
                 stream3c.rotate(rotate)
-- 
2.43.0


From ba11e54957261ac09859e02b1601f212af09ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 15/42] fix: plot_rf failed with show_vlines=True and
 show_traces=False

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 5e092bb..0cc5e9e 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -136,6 +136,7 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
                 for l in ax.get_xticklabels():
                     l.set_fontsize('small')
             ax.xaxis.set_minor_locator(AutoMinorLocator())
+    aligner_color = "#a0a0a080"
     if show_traces:
         # set x and y limits
         ax1.set_xlim(*xlim)
@@ -143,7 +144,6 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         ax1.set_yticklabels('')
         ax1.set_xlabel('time (s)')
         ax1.xaxis.set_minor_locator(AutoMinorLocator())
-        aligner_color = "#a0a0a080"
         if show_vlines:
             ax1.xaxis.grid(True, color=aligner_color, linestyle=':')
 
-- 
2.43.0


From a3c6b33495c65632ad6ef1f990db0c33550e613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 16/42] fix: plot_harmonics scaled second stream by wrong
 maximum

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 0cc5e9e..8ee2265 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -421,7 +421,7 @@ def plot_harmonics(hd, hd2=None, fillcolors=('b', 'r'), trim=None):
     if hd2:
         ref1 = max(abs(hd2.select(channel='0', location='mod')[0].data))
         for tr in hd2.select(location='mod'):
-            if max(abs(tr.data)) > ref0:
+            if max(abs(tr.data)) > ref1:
                 ref1 = max(abs(tr.data))
         unmod = hd2.select(location='mod')
     else:
-- 
2.43.0


From ebdff071a4dbf35b701f90ce5c0e8d53a5ff3e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 17/42] fix: components header was missing for unmodeled
 harmonics

---
 rf/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/harmonics.py b/rf/harmonics.py
index 0e121dc..03b79b6 100644
--- a/rf/harmonics.py
+++ b/rf/harmonics.py
@@ -129,7 +129,7 @@ def harmonics(stream, components='R', azim=0, method='time', **kwargs):
             out[i].stats['channel'] = str(i-5)
             out[i].stats['term'] = terms[i-5]
             out[i].stats['location'] = 'unmod'
-        out[i].stats['components'] = components
+            out[i].stats['components'] = components
     return out
 
 
-- 
2.43.0


From db3951c105f401114a2535023f5cd41aad5d6d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 18/42] fix: iter_event_data failed if get_waveforms of the
 batch module could not retrieve data

---
 rf/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/util.py b/rf/util.py
index 77a4d41..9e491f3 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -85,6 +85,8 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             stream = get_waveforms(**kws)
         except Exception:  # no data available
             continue
+        if stream is None:  # no data available
+            continue
         stream.trim(starttime, endtime)
         stream.merge()
         if len(stream) != 3:
-- 
2.43.0


From a40d8462ba5fceec4728e592b9bfce172d44d9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:54 +0000
Subject: [PATCH 19/42] fix: batch data command accepted calc or moveout given
 more than once

---
 rf/batch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 05a8129..0da0169 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -255,7 +255,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         kw['boxes']['bins'] = np.linspace(*kw['boxbins'])
 
     try:
-        if command == 'calc':
+        if command == 'data':
             assert len(commands) < 3
             if len(commands) == 2:
                 assert commands[0] != commands[1]
-- 
2.43.0


From 26173b12224399cf4622223ed41ad3cfa88fa11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 20/42] fix: a single event with data which cannot be merged
 stopped iter_event_data

---
 rf/util.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rf/util.py b/rf/util.py
index 9e491f3..83495b9 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -88,7 +88,13 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
         if stream is None:  # no data available
             continue
         stream.trim(starttime, endtime)
-        stream.merge()
+        try:
+            stream.merge()
+        except Exception as ex:  # e.g. differing sampling rates
+            from warnings import warn
+            warn('Error "%s" while merging data for event %s, station %s.'
+                 % (ex, event.resource_id, seedid))
+            continue
         if len(stream) != 3:
             from warnings import warn
             warn('Need 3 component seismograms. %d components '
-- 
2.43.0


From bb6b2438a01e4b20af829b6570b6c4b1e6c144f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 21/42] fix: batch config did not allow '#' inside of strings

---
 rf/batch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 0da0169..5d6ed97 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -10,6 +10,7 @@ import json
 import os
 from os.path import join
 from pkg_resources import resource_filename
+import re
 import shutil
 import sys
 
@@ -180,7 +181,9 @@ class ConfigJSONDecoder(json.JSONDecoder):
     """Strip lines from comments."""
 
     def decode(self, s):
-        s = '\n'.join(l.split('#', 1)[0] for l in s.split('\n'))
+        # do not strip '#' inside of strings
+        s = re.sub(r'("(?:\\.|[^"\\\n])*")|#[^\n]*',
+                   lambda m: m.group(1) or '', s)
         return super(ConfigJSONDecoder, self).decode(s)
 
 
-- 
2.43.0


From 04a4b11a6f2b18c1d164782e56abfcff2fc96fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 22/42] fix: profile lost or misassigned traces, because edges
 of boxes were projected as straight lines in lonlat space

Boxes crossing the date line collected arbitrary points.
---
 rf/profile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rf/profile.py b/rf/profile.py
index 3488c5d..51989fd 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -61,7 +61,7 @@ def get_profile_boxes(latlon0, azimuth, bins, width=_LARGE_BOX_WIDTH):
 def _find_box(latlon, boxes, crs=None):
     """Return the box which encloses the coordinates."""
     import cartopy.crs as ccrs
-    from shapely.geometry import Point
+    from shapely.geometry import Point, Polygon
     if crs is None:
         latlons = [boxes[len(boxes)//2]['latlon']]
         latlon0 = np.median(latlons, axis=0)
@@ -69,7 +69,10 @@ def _find_box(latlon, boxes, crs=None):
     pc = ccrs.PlateCarree()
     p = crs.project_geometry(Point(*latlon[::-1]), pc)
     for box in boxes:
-        poly = crs.project_geometry(box['poly'], pc)
+        # connect the corners in the projection, edges which are straight
+        # in lonlat space displace the box and break at the date line
+        corners = np.array(box['poly'].exterior.coords)
+        poly = Polygon(crs.transform_points(pc, *corners.T)[:, :2])
         if p.within(poly):
             return box
 
-- 
2.43.0


From c51a57017532d1f60607cde6488628af1f29a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 23/42] fix: boxes of profile drifted away from the profile
 line for wide boxes and long profiles

---
 rf/profile.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rf/profile.py b/rf/profile.py
index 51989fd..3aef0ba 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -15,19 +15,19 @@ _LARGE_BOX_WIDTH = 2000
 def _get_box(latlon0, azimuth, length, width=_LARGE_BOX_WIDTH, offset=0):
     """Create a single box."""
     from shapely.geometry import Polygon
-    start = direct_geodetic(latlon0, azimuth, offset)
-    azis = ((azimuth - 90) % 360, azimuth,
-            (azimuth + 90) % 360, (azimuth + 180) % 360)
-    dists = (width/2, length, width, length)
-    latlon = start
+    from geographiclib.geodesic import Geodesic
     corners = []
-    for a, d in zip(azis, dists):
-        latlon = direct_geodetic(latlon, a, d)
-        corners.append(latlon[::-1])
+    # start from the profile line, the azimuth varies along a geodesic
+    for dist, sides in ((offset, (-90, 90)), (offset + length, (90, -90))):
+        p = Geodesic.WGS84.Direct(*latlon0, azimuth, dist * 1000)
+        for side in sides:
+            latlon = direct_geodetic((p['lat2'], p['lon2']),
+                                     p['azi2'] + side, width / 2)
+            corners.append(latlon[::-1])
     box = {'poly': Polygon(corners),
            'length': length,
            'pos': offset + length/2,
-           'latlon': direct_geodetic(start, azimuth, length/2)}
+           'latlon': direct_geodetic(latlon0, azimuth, offset + length/2)}
     return box
 
 
-- 
2.43.0


From cd04fde7ca5b464d9f653016065b2bff82a9a1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 24/42] fix: rf lost the result of custom deconvolution
 functions returning new traces

---
 rf/rfstream.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 393953b..0a6a284 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -347,9 +347,15 @@ class RFStream(Stream):
         if deconvolve:
             for stream3c in iter3c(self):
                 kwargs.setdefault('winsrc', method)
+                traces = {tr.id: tr for tr in stream3c}
                 stream3c.deconvolve(method=deconvolve,
                                     source_components=source_components,
                                     **kwargs)
+                # custom functions might return new traces
+                for tr in stream3c:
+                    if tr.id in traces:
+                        traces[tr.id].data = tr.data
+                        traces[tr.id].stats = tr.stats
         # Mirrow Q/R and T component at 0s for S-receiver method for a better
         # comparison with P-receiver method (converted Sp wave arrives before
         # S wave, but converted Ps wave arrives after P wave)
-- 
2.43.0


From 7414f0408282e3dd35fdb83ffce2d926a4aab75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:51 +0000
Subject: [PATCH 25/42] fix: headers removed after reading a SAC or Q file were
 back in the written file

---
 rf/rfstream.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 0a6a284..b671ff1 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -609,6 +609,8 @@ class RFTrace(Trace):
             try:
                 val = st[head]
             except KeyError:
+                # remove value from the file the trace was read from
+                st[format].pop(head_format, None)
                 continue
             try:
                 convert = _HEADER_CONVERSIONS[format][head][1]
@@ -624,6 +626,12 @@ class RFTrace(Trace):
                     return np.asarray(obj).item()
                 st[format]['COMMENT'] = json.dumps(
                     comment, separators=(',', ':'), default=default)
+            else:
+                try:
+                    if isinstance(json.loads(st[format]['COMMENT']), dict):
+                        st[format].pop('COMMENT')
+                except (KeyError, ValueError):
+                    pass
 
     def _seconds2utc(self, seconds, reftime=None):
         """Return UTCDateTime given as seconds relative to reftime"""
-- 
2.43.0


From e676c04d57a74e38120e8a5fc9271e4ff360d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:45 +0000
Subject: [PATCH 26/42] fix: receiver functions without event_time could not be
 written to HDF5

---
 rf/rfstream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index b671ff1..af3b3db 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -200,8 +200,9 @@ class RFStream(Stream):
             tr._write_format_specific_header(format, sh_compat=sh_compat)
         if format.upper() == 'H5':
             index = self.type
-            if index is None and 'event_time' in self[0].stats:
-                index = 'rf'
+            if index in (None, 'rf'):
+                # the rf index needs the event time
+                index = 'rf' if self.__is_set('event_time') else None
             # use default index for types without specific index
             index = _H5INDEX.get(index)
             if index:
-- 
2.43.0


From 29f2f0bce924e7fc95f3d02ce90fd0c2e7122ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:53 +0000
Subject: [PATCH 27/42] fix: rf left traces without phase or overwrote the
 phase if phases in stream differ

---
 rf/rfstream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index af3b3db..a57200c 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -366,8 +366,10 @@ class RFStream(Stream):
                 tr.stats.onset = tr.stats.starttime + (tr.stats.endtime -
                                                        tr.stats.onset)
         self.type = 'rf'
-        if self.method != method:
-            self.method = method
+        for tr in self:
+            # keep phases like PP which fit to the method
+            if tr.stats.get('phase', '')[-1:].upper() != method:
+                tr.stats.phase = method
         return self
 
     @_add_processing_info
-- 
2.43.0


From 18474ab7cd5576793edaa16c4dcc99a3661f60d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:50 +0000
Subject: [PATCH 28/42] fix: moveout of S multiples zeroed data if trace is
 longer than the deepest delay time, times were off by one sample

---
 rf/simple_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index b670f56..20fd391 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -171,11 +171,11 @@ class SimpleModel(object):
             S_multiple = phase[0].upper() == 'S' and len(phase) > 3
             if S_multiple:
                 time0 = st.starttime - st.onset + index0 * st.delta
-                old_data = tr.data[:index0][::-1]
-                t = -time0 - np.arange(index0) * st.delta
-                new_t = -np.interp(-t, -t0, -t1, left=0, right=0)
-                data = np.interp(-t, -new_t, old_data, left=0., right=0.)
-                tr.data[:index0] = data[::-1]
+                old_data = tr.data[:index0 + 1][::-1]
+                t = time0 - np.arange(index0 + 1) * st.delta
+                new_t = -np.interp(-t, -t0, -t1, left=0, right=None)
+                data = np.interp(-t, -new_t, old_data, left=None, right=0.)
+                tr.data[:index0 + 1] = data[::-1]
             else:
                 if t0[-1] > t1[-1]:
                     index0 += 1
-- 
2.43.0


From 93d45a0c621278c458639ba1a350e5f962e14d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 29/42] fix: moveout failed for onset at last sample and held
 the first sample after the onset for some multiples

---
 rf/simple_model.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 20fd391..60830f0 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -177,8 +177,6 @@ class SimpleModel(object):
                 data = np.interp(-t, -new_t, old_data, left=None, right=0.)
                 tr.data[:index0 + 1] = data[::-1]
             else:
-                if t0[-1] > t1[-1]:
-                    index0 += 1
                 time0 = st.starttime - st.onset + index0 * st.delta
                 old_data = tr.data[index0:]
                 t = time0 + np.arange(len(tr) - index0) * st.delta
-- 
2.43.0


From 7f509460053b4ead99e1c702376cb31fb84357f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:48 +0000
Subject: [PATCH 30/42] fix: rfstats used the default distance range of S for
 phase PS

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index a57200c..a5b0348 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -722,7 +722,7 @@ def rfstats(obj=None, event=None, station=None,
                 traces.append(tr)
         stream.traces = traces
         return stream
-    if dist_range == 'default' and phase.upper() in 'PS':
+    if dist_range == 'default' and phase.upper() in ('P', 'S'):
         dist_range = (30, 90) if phase.upper() == 'P' else (50, 85)
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
-- 
2.43.0


From 813ce70abf3af2d7212282421bf2741ffb36f4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 31/42] fix: bars of histogram in profile plot were shifted by
 half a box

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 8ee2265..576861b 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -365,7 +365,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
     if top == 'hist':
         left = [tr.stats.box_pos - tr.stats.box_length / 2 for tr in profile]
         height = [tr.stats.num for tr in profile]
-        ax3.bar(left, height, widths, color='cadetblue')
+        ax3.bar(left, height, widths, align='edge', color='cadetblue')
         plt.setp(ax3.get_xticklabels(), visible=False)
         ax3.spines['top'].set_color('none')
         ax3.spines['right'].set_color('none')
-- 
2.43.0


From 2923624ca35bc7c2d56b92f0803ce3b1f6fab456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:47 +0000
Subject: [PATCH 32/42] fix: repeated stack command duplicated stacks in HDF5
 files

---
 rf/batch.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index 5d6ed97..0f3ad2d 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -85,7 +85,16 @@ def write(stream, root, format, type=None):
                      FNAMES)[format]
     fname = fname_pattern.format(root=root, **stream[0].stats)
     _create_dir(fname)
-    if format == 'H5':
+    if format == 'H5' and type == 'stack':
+        import obspyh5
+        old_index = obspyh5._INDEX
+        # stacks of the same station replace each other in the file
+        obspyh5.set_index('waveforms/{network}.{station}.{location}/{channel}')
+        try:
+            stream.write(fname, format, mode='a', ignore=('mseed',))
+        finally:
+            obspyh5.set_index(old_index)
+    elif format == 'H5':
         stream.write(fname, format, mode='a', ignore=('mseed',))
     elif format == 'Q':
         stream.write(fname, format)
-- 
2.43.0


From 27ce1e48058e06501d0a0f31d4a07b6b3edf5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:32 +0000
Subject: [PATCH 33/42] fix: batch commands processed data of stations with
 several bands repeatedly

---
 rf/batch.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rf/batch.py b/rf/batch.py
index 0f3ad2d..2c0c2b7 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -107,8 +107,15 @@ def write(stream, root, format, type=None):
 def iter_event_processed_data(events, inventory, pin, format,
                               yield_traces=False, pbar=None):
     """Iterator yielding streams or traces which are read from disc."""
+    done = set()
     for meta in iter_event_metadata(events, inventory, pbar=pbar):
         meta['channel'] = '???'
+        # files hold all channels of a station, read each of them only once
+        key = tuple(str(meta.get(k)) for k in ('network', 'station',
+                                               'location', 'event_time'))
+        if key in done:
+            continue
+        done.add(key)
         if 'event_time' not in meta and format != 'H5':
             meta['event_time'] = _DummyUTC()
         fname = FNAMES[format].format(root=pin, **meta)
-- 
2.43.0


From dadfb1a8a7b04a2a780f41cc511957b19558fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 34/42] fix: module search path was not restored correctly
 after loading plugins

---
 rf/batch.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 2c0c2b7..c8e9d29 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -142,9 +142,14 @@ def _iter_profile(pin, format):
 
 def load_func(modulename, funcname):
     """Load and return function from Python module."""
-    sys.path.append(os.path.curdir)
-    module = import_module(modulename)
-    sys.path.pop(-1)
+    extend_path = os.path.curdir not in sys.path
+    if extend_path:
+        sys.path.append(os.path.curdir)
+    try:
+        module = import_module(modulename)
+    finally:
+        if extend_path:
+            sys.path.remove(os.path.curdir)
     func = getattr(module, funcname)
     return func
 
-- 
2.43.0


From a30323a3827d9bd21f4d5f7857f48a401bc87475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 35/42] fix: run_commands failed for events given as catalog or
 list of events

---
 rf/batch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index c8e9d29..a5fcdeb 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -293,8 +293,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         if command in ('stack', 'plot'):
             events = None
         elif command != 'print' or objects[0] == 'events':
-            if (not isinstance(events, obspy.Catalog) or
-                    not isinstance(events, list) or
+            if (not isinstance(events, (obspy.Catalog, list)) or
                     (len(events) == 2 and isinstance(events[0], basestring))):
                 if isinstance(events, basestring):
                     format_ = None
-- 
2.43.0


From 15b4633685289d69063f5460585456a47d88beb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 36/42] fix: stack and plot commands lost all records of a
 station if a single file was unreadable

---
 rf/batch.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index a5fcdeb..de502da 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -5,6 +5,7 @@ rf: receiver function calculation - batch command line utility
 
 import argparse
 from argparse import SUPPRESS
+from glob import glob
 from importlib import import_module
 import json
 import os
@@ -16,7 +17,7 @@ import sys
 
 import numpy as np
 import obspy
-from rf.rfstream import read_rf
+from rf.rfstream import read_rf, RFStream
 from rf.util import iter_event_data, iter_event_metadata
 
 try:
@@ -116,23 +117,29 @@ def iter_event_processed_data(events, inventory, pin, format,
         if key in done:
             continue
         done.add(key)
-        if 'event_time' not in meta and format != 'H5':
+        several_records = 'event_time' not in meta and format != 'H5'
+        if several_records:
             meta['event_time'] = _DummyUTC()
         fname = FNAMES[format].format(root=pin, **meta)
         kwargs = {}
         if format == 'H5':
             meta.pop('channel')
             kwargs['readonly'] = meta
-        try:
-            stream = read_rf(fname, format, **kwargs)
-        except Exception:
-            pass
+        # an unreadable file of one record must not affect other records
+        fnames = sorted(glob(fname)) if several_records else [fname]
+        stream = RFStream()
+        for fname in fnames:
+            try:
+                stream += read_rf(fname, format, **kwargs)
+            except Exception:
+                pass
+        if len(stream) == 0:
+            continue
+        if yield_traces:
+            for tr in stream:
+                yield tr
         else:
-            if yield_traces:
-                for tr in stream:
-                    yield tr
-            else:
-                yield stream
+            yield stream
 
 
 def _iter_profile(pin, format):
-- 
2.43.0


From 2020be46db47504f1f501f6cb8ae9cf0ea6498f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:16 +0000
Subject: [PATCH 37/42] fix: plot_rf and plot_profile return if no trace is
 left after trimming

---
 rf/imaging.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 576861b..d423074 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -59,10 +59,10 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         is the stacked trace.
     """
 
-    if len(stream) == 0:
-        return
     if trim:
         stream = stream.slice2(*trim, reftime='onset')
+    if len(stream) == 0:
+        return
     if info is None:
         info = ()
     if not show_traces:
@@ -308,10 +308,10 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
         `~.simple_model.SimpleModel` object to calculate depths for
         tick labels.
     """
-    if len(profile) == 0:
-        return
     if trim:
         profile = profile.slice2(*trim, reftime='onset')
+    if len(profile) == 0:
+        return
     fig = plt.figure(figsize=figsize, dpi=dpi)
     ax = fig.add_axes([0.1, 0.1, 0.8, 0.7])
     widths = [tr.stats.box_length for tr in profile]
-- 
2.43.0


From 6861b7e5f8c3a667bf97fd19a36806834efc3fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 38/42] fix: plots of traces without amplitude

---
 rf/imaging.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index d423074..398638b 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -113,14 +113,14 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         ax.plot(t, d + i, 'k')
     xlim = (0, 0)
     max_ = max(np.max(np.abs(tr.data))
-               for tr in stream)  # for scaling, if not trace_scale
+               for tr in stream) or 1  # for scaling, if not trace_scale
     for i, tr in enumerate(stream):
         times = tr.times(reftime=tr.stats.onset)
         xlim = (min(xlim[0], times[0]), max(xlim[1], times[-1]))
         if show_traces:
             # scale trace by trace (otherwise, we scale by global trace max)
             if trace_scale:
-                max_ = max(np.abs(tr.data))
+                max_ = max(np.abs(tr.data)) or 1
             _plot(ax1, times, tr.data / max_ * scale_factor, i + 1)
     # plot right axes with header information
     if info:
@@ -318,7 +318,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
     pad = max(1, scale) * min(widths)
     xlim = (min(tr.stats.box_pos for tr in profile) - pad,
             max(tr.stats.box_pos for tr in profile) + pad)
-    max_ = max(np.max(np.abs(tr.data)) for tr in profile)
+    max_ = max(np.max(np.abs(tr.data)) for tr in profile) or 1
     for tr in profile:
         x = tr.stats.box_pos + scale * tr.data / max_ * min(widths)
         y = tr.times() - (tr.stats.onset - tr.stats.starttime)
@@ -417,12 +417,14 @@ def plot_harmonics(hd, hd2=None, fillcolors=('b', 'r'), trim=None):
     for tr in hd:
         if max(abs(tr.data)) > ref0:
             ref0 = max(abs(tr.data))
+    ref0 = ref0 or 1
     mod = hd.select(location='mod')
     if hd2:
         ref1 = max(abs(hd2.select(channel='0', location='mod')[0].data))
         for tr in hd2.select(location='mod'):
             if max(abs(tr.data)) > ref1:
                 ref1 = max(abs(tr.data))
+        ref1 = ref1 or 1
         unmod = hd2.select(location='mod')
     else:
         ref1 = ref0
-- 
2.43.0


From a6774f20f09e1e60d7782815aed1f9dca9ae97d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 39/42] fix: names of formats in lower case were not found by
 batch commands

---
 rf/batch.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index de502da..f480391 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -108,6 +108,7 @@ def write(stream, root, format, type=None):
 def iter_event_processed_data(events, inventory, pin, format,
                               yield_traces=False, pbar=None):
     """Iterator yielding streams or traces which are read from disc."""
+    format = format.upper()
     done = set()
     for meta in iter_event_metadata(events, inventory, pbar=pbar):
         meta['channel'] = '???'
@@ -143,7 +144,8 @@ def iter_event_processed_data(events, inventory, pin, format,
 
 
 def _iter_profile(pin, format):
-    fname = PROFILE_FNAMES[format].format(root=pin, box_pos='*', channel='???')
+    fname = PROFILE_FNAMES[format.upper()].format(root=pin, box_pos='*',
+                                                  channel='???')
     yield read_rf(fname)
 
 
-- 
2.43.0


From e93dbaa1dc041a56b20c2553943cb0a354602026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 40/42] fix: reading Q files with JSON comments of other
 programs failed

---
 rf/rfstream.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index a5b0348..388379a 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -572,9 +572,12 @@ class RFTrace(Trace):
                     pass
                 elif format == 'sh' and head_format == 'COMMENT':
                     try:
-                        st.update(json.loads(value))
+                        comment = json.loads(value)
                     except json.JSONDecodeError:
-                        pass
+                        continue
+                    # comment might have been written by another program
+                    if isinstance(comment, dict):
+                        st.update(comment)
                     continue
                 else:
                     st[head] = value
-- 
2.43.0


From 8489f663e372c934a4afc434ef1e7996c9f9d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:11 +0000
Subject: [PATCH 41/42] fix: iter_event_data changed data of the data source

---
 rf/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rf/util.py b/rf/util.py
index 83495b9..abded86 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -87,7 +87,8 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             continue
         if stream is None:  # no data available
             continue
-        stream.trim(starttime, endtime)
+        # do not change data of the data source
+        stream = stream.slice(starttime, endtime).copy()
         try:
             stream.merge()
         except Exception as ex:  # e.g. differing sampling rates
-- 
2.43.0


From 6e1e60a96fe957d7dae0ad8fba01ed729f560ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:59 +0000
Subject: [PATCH 42/42] fix: iter_event_data dropped data with gaps in the
 padding merged by the data source

---
 rf/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index abded86..3944133 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -87,8 +87,9 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             continue
         if stream is None:  # no data available
             continue
-        # do not change data of the data source
-        stream = stream.slice(starttime, endtime).copy()
+        # do not change data of the data source, data which is already merged
+        # might be masked outside of the request window only
+        stream = stream.slice(starttime, endtime).copy().split()
         try:
             stream.merge()
         except Exception as ex:  # e.g. differing sampling rates
-- 
2.43.0

