From ff2edd2f11ade92ea4278037e4d94875225d4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 01/19] fix: cache reference delay times per reference slowness

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 4b8cc66..5718cd0 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -134,9 +134,10 @@ class SimpleModel(object):
             raise ValueError(msg % phase)
         phase = phase.upper()
         try:
-            t_ref = self.t_ref[phase]
+            t_ref = self.t_ref[(phase, ref)]
         except KeyError:
-            self.t_ref[phase] = t_ref = self.calculate_delay_times(ref, phase)
+            t_ref = self.calculate_delay_times(ref, phase)
+            self.t_ref[(phase, ref)] = t_ref
         t = self.calculate_delay_times(slowness, phase)
         if phase[0] == 'S':
             t_ref = -t_ref
-- 
2.43.0


From a3af8f17d08386c53125f93f333528f889142a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 02/19] fix: stack takes the headers of each id from a trace
 with this id

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9e113d0..1c8e5df 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -410,10 +410,10 @@ class RFStream(Stream):
         id.
         """
         ids = set(tr.id for tr in self)
-        tr = self[0]
         traces = []
         for id in ids:
             net, sta, loc, cha = id.split('.')
+            tr = [tr for tr in self if tr.id == id][0]
             data = np.mean([tr.data for tr in self if tr.id == id], axis=0)
             header = {'network': net, 'station': sta, 'location': loc,
                       'channel': cha, 'sampling_rate': tr.stats.sampling_rate}
-- 
2.43.0


From b9c6ab2049637d4a9f37e8980ccdec217d973f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 03/19] fix: stack and profile do not share the processing list
 with their input

---
 rf/profile.py  | 4 +++-
 rf/rfstream.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rf/profile.py b/rf/profile.py
index 07893a3..3488c5d 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -3,6 +3,8 @@
 """
 Functions for receiver function profile calculation.
 """
+from copy import copy
+
 import numpy as np
 from rf.util import _add_processing_info, direct_geodetic
 
@@ -105,7 +107,7 @@ def profile(stream, boxes, crs=None):
                       'channel': '??' + comp}
             for entry in ('slowness', 'phase', 'moveout', 'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = copy(tr.stats[entry])
             stack[key] = tr2 = tr.__class__(data=tr.data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
diff --git a/rf/rfstream.py b/rf/rfstream.py
index 1c8e5df..bcee328 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -3,6 +3,7 @@
 """
 Classes and functions for receiver function calculation.
 """
+from copy import copy
 import json
 from operator import itemgetter
 from pkg_resources import resource_filename
@@ -421,7 +422,7 @@ class RFStream(Stream):
                           'station_longitude', 'station_elevation',
                           'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = copy(tr.stats[entry])
             tr2 = RFTrace(data=data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From 2f58e75d5cb37005b041c573c0db7854dbf04018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 04/19] fix: waterlevel deconvolution of a single array without
 normalization

---
 rf/deconvolve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index ebc0f7d..7a2c44c 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -229,10 +229,10 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
         for rf in rf_list:
             rf *= norm
     if return_info:
-        if normalize not in (None, 'src'):
+        if normalize != 'src':
             spec_src = ffilt * spec_src * spec_src_conj / spec_src_water
             rf_src = ifft(spec_src, nfft)[:N]
-            norm = 1 / max(rf_src)
+            norm = 1 / max(rf_src) if normalize is not None else 1.
             rf_src = norm * rf_src
         info = {'rf_src': rf_src, 'rf_src_conj': spec_src_conj,
                 'spec_src_water': spec_src_water,
@@ -240,7 +240,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
                 'gauss': ffilt, 'norm': norm, 'N': N, 'nfft': nfft}
         return rf_list, info
     elif flag:
-        return rf
+        return rf_list[0]
     else:
         return rf_list
 
-- 
2.43.0


From 32c83ed117c2f20dbe581a8bd37212eaf41b69f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 05/19] fix: rfstats uses an event or station object given
 alone

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index bcee328..0639902 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -701,7 +701,7 @@ def rfstats(obj=None, event=None, station=None,
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
     stats = AttribDict({}) if obj is None else obj
-    if event is not None and station is not None:
+    if event is not None or station is not None:
         stats.update(obj2stats(event=event, station=station))
     dist, baz, _ = gps2dist_azimuth(stats.station_latitude,
                                     stats.station_longitude,
-- 
2.43.0


From 44a3b471d82fd9c57b89b85fda14adcc4cde98f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 06/19] fix: iter_event_data skips pairs without waveforms or
 origin

---
 rf/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index 77a4d41..7da2df7 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -60,8 +60,9 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
     for event, seedid in itertools.product(events, stations):
         if pbar is not None:
             pbar.update(1)
-        origin_time = (event.preferred_origin() or event.origins[0])['time']
         try:
+            origin_time = (event.preferred_origin() or
+                           event.origins[0])['time']
             args = (seedid[:-1] + stations[seedid], origin_time)
             coords = inventory.get_coordinates(*args)
         except Exception:  # station not available at that time
@@ -83,10 +84,10 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
                'endtime': endtime + pad}
         try:
             stream = get_waveforms(**kws)
+            stream.trim(starttime, endtime)
+            stream.merge()
         except Exception:  # no data available
             continue
-        stream.trim(starttime, endtime)
-        stream.merge()
         if len(stream) != 3:
             from warnings import warn
             warn('Need 3 component seismograms. %d components '
-- 
2.43.0


From 3ccb5c2b45bc1e981284f2ad469e95e87e2ac332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 07/19] fix: batch rejects commands given twice and accepts a
 Catalog object

---
 rf/batch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 05a8129..9c2e2e8 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -255,7 +255,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         kw['boxes']['bins'] = np.linspace(*kw['boxbins'])
 
     try:
-        if command == 'calc':
+        if command == 'data':
             assert len(commands) < 3
             if len(commands) == 2:
                 assert commands[0] != commands[1]
@@ -269,8 +269,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         if command in ('stack', 'plot'):
             events = None
         elif command != 'print' or objects[0] == 'events':
-            if (not isinstance(events, obspy.Catalog) or
-                    not isinstance(events, list) or
+            if (not isinstance(events, (obspy.Catalog, list)) or
                     (len(events) == 2 and isinstance(events[0], basestring))):
                 if isinstance(events, basestring):
                     format_ = None
-- 
2.43.0


From 3f3e2b791e27836856e36b1e6e5b3936db7554dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 08/19] fix: rf accepts a float for downsample and only the
 methods P and S

---
 rf/rfstream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 0639902..ed7d973 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -310,7 +310,7 @@ class RFStream(Stream):
 
         if method is None:
             method = self.method
-        if method is None or method not in 'PS':
+        if method not in ('P', 'S'):
             msg = "method must be one of 'P', 'S', but is '%s'"
             raise ValueError(msg % method)
         if source_components is None:
@@ -322,7 +322,7 @@ class RFStream(Stream):
         if downsample:
             for tr in self:
                 if downsample <= tr.stats.sampling_rate:
-                    tr.decimate(int(tr.stats.sampling_rate) // downsample)
+                    tr.decimate(int(tr.stats.sampling_rate // downsample))
         if rotate:
             for stream3c in iter3c(self):
                 stream3c.rotate(rotate)
-- 
2.43.0


From 5d0d03bd0e6e66cd6fa0f4962f1a85162bb6e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 09/19] fix: write restores station name and H5 index also if
 the writer fails

---
 rf/rfstream.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index ed7d973..70d8aa7 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -203,16 +203,18 @@ class RFStream(Stream):
             index = self.type
             if index is None and 'event_time' in self[0].stats:
                 index = 'rf'
-            if index:
+            if index in _H5INDEX:
                 import obspyh5
                 old_index = obspyh5._INDEX
                 obspyh5.set_index(_H5INDEX[index])
-        super(RFStream, self).write(filename, format, **kwargs)
-        if format.upper() == 'H5' and index:
-            obspyh5.set_index(old_index)
-        if format.upper() == 'Q':
-            for tr in self:
-                tr.stats.station = tr.stats.station.split('.')[1]
+        try:
+            super(RFStream, self).write(filename, format, **kwargs)
+        finally:
+            if format.upper() == 'H5' and index in _H5INDEX:
+                obspyh5.set_index(old_index)
+            if format.upper() == 'Q':
+                for tr in self:
+                    tr.stats.station = tr.stats.station.split('.')[1]
 
     def trim2(self, starttime=None, endtime=None, reftime=None, **kwargs):
         """
-- 
2.43.0


From 020269f94b37a07e30660e1a7c11620930e4cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 10/19] fix: label all harmonics with their components

---
 rf/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/harmonics.py b/rf/harmonics.py
index 0e121dc..03b79b6 100644
--- a/rf/harmonics.py
+++ b/rf/harmonics.py
@@ -129,7 +129,7 @@ def harmonics(stream, components='R', azim=0, method='time', **kwargs):
             out[i].stats['channel'] = str(i-5)
             out[i].stats['term'] = terms[i-5]
             out[i].stats['location'] = 'unmod'
-        out[i].stats['components'] = components
+            out[i].stats['components'] = components
     return out
 
 
-- 
2.43.0


From f381cf11e57a1c8b05f29bdacd97545fe29cea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 11/19] fix: onset nearest to the last sample if it is beyond
 the end of the trace

---
 rf/deconvolve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 7a2c44c..ce1a9f5 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -13,8 +13,9 @@ from rf.util import _add_processing_info
 def __find_nearest(array, value):
     """http://stackoverflow.com/a/26026189"""
     idx = np.searchsorted(array, value, side='left')
-    expr = np.abs(value - array[idx - 1]) < np.abs(value - array[idx])
-    if idx > 0 and (idx == len(array) or expr):
+    if idx > 0 and (idx == len(array) or
+                    np.abs(value - array[idx - 1]) <
+                    np.abs(value - array[idx])):
         return idx - 1
     else:
         return idx
-- 
2.43.0


From 91255d371ac18dc0822e71e47b0db0ba05072b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 12/19] fix: moveout ignores depths at which the reference ray
 has turned

---
 rf/simple_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 5718cd0..8c30584 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -143,7 +143,7 @@ class SimpleModel(object):
             t_ref = -t_ref
             t = -t
         try:
-            index = np.nonzero(np.isnan(t))[0][0] - 1
+            index = np.nonzero(np.isnan(t + t_ref))[0][0] - 1
         except IndexError:
             index = len(t)
         t = t[:index]
-- 
2.43.0


From 94a6513b086b20b2f1b86601856bf4cb39afbe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 13/19] fix: plots: grid lines without traces, scale of second
 harmonics, histogram bars

---
 rf/imaging.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 532454f..b5cf25c 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -102,6 +102,7 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         if len(info) > 1:
             ax4 = ax3.twiny()
             info[1] = [ax4] + list(info[1])
+    aligner_color = "#a0a0a080"
     # plot individual receiver functions
 
     def _plot(ax, t, d, i):
@@ -143,7 +144,6 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         ax1.set_yticklabels('')
         ax1.set_xlabel('time (s)')
         ax1.xaxis.set_minor_locator(AutoMinorLocator())
-        aligner_color = "#a0a0a080"
         if show_vlines:
             ax1.xaxis.grid(True, color=aligner_color, linestyle=':')
 
@@ -362,7 +362,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
     if top == 'hist':
         left = [tr.stats.box_pos - tr.stats.box_length / 2 for tr in profile]
         height = [tr.stats.num for tr in profile]
-        ax3.bar(left, height, widths, color='cadetblue')
+        ax3.bar(left, height, widths, color='cadetblue', align='edge')
         plt.setp(ax3.get_xticklabels(), visible=False)
         ax3.spines['top'].set_color('none')
         ax3.spines['right'].set_color('none')
@@ -418,7 +418,7 @@ def plot_harmonics(hd, hd2=None, fillcolors=('b', 'r'), trim=None):
     if hd2:
         ref1 = max(abs(hd2.select(channel='0', location='mod')[0].data))
         for tr in hd2.select(location='mod'):
-            if max(abs(tr.data)) > ref0:
+            if max(abs(tr.data)) > ref1:
                 ref1 = max(abs(tr.data))
         unmod = hd2.select(location='mod')
     else:
-- 
2.43.0


From bda514cd228983b06d4ca24cf93f2d058de0b72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 14/19] fix: depth axis of the profile plot accumulates only
 the layers above

---
 rf/imaging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/imaging.py b/rf/imaging.py
index b5cf25c..6848929 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -339,6 +339,8 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
         phase = profile[0].stats.moveout
         slowness = profile[0].stats.slowness
         pd = model.calculate_delay_times(phase=phase, slowness=slowness)
+        # delay at the top of each layer
+        pd = np.hstack((0., pd[:-1]))
         ylim = ax.get_ylim()
         ax2 = ax.twinx()
         ax.sharey(ax2)
-- 
2.43.0


From 18dc641c117edb681b7a08195cd34d99ac7bb28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 15/19] fix: default distance range only for the phases P and S

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 70d8aa7..f9e66f7 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -698,7 +698,7 @@ def rfstats(obj=None, event=None, station=None,
                 traces.append(tr)
         stream.traces = traces
         return stream
-    if dist_range == 'default' and phase.upper() in 'PS':
+    if dist_range == 'default' and phase.upper() in ('P', 'S'):
         dist_range = (30, 90) if phase.upper() == 'P' else (50, 85)
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
-- 
2.43.0


From 9d34c85d5efc938997b293492283efe6cb641173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:13 +0000
Subject: [PATCH 16/19] fix: moveout of S multiples assigns each sample its own
 time

---
 rf/simple_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 8c30584..4060871 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -171,7 +171,7 @@ class SimpleModel(object):
             if S_multiple:
                 time0 = st.starttime - st.onset + index0 * st.delta
                 old_data = tr.data[:index0][::-1]
-                t = -time0 - np.arange(index0) * st.delta
+                t = time0 - np.arange(1, index0 + 1) * st.delta
                 new_t = -np.interp(-t, -t0, -t1, left=0, right=0)
                 data = np.interp(-t, -new_t, old_data, left=0., right=0.)
                 tr.data[:index0] = data[::-1]
-- 
2.43.0


From 55122dd3a1d123a8049322b0edcc656a5094f321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 17/19] fix: moveout leaves traces without samples to correct
 unchanged

---
 rf/simple_model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 4060871..3dda991 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -169,6 +169,9 @@ class SimpleModel(object):
                                               ref=ref)
             S_multiple = phase[0].upper() == 'S' and len(phase) > 3
             if S_multiple:
+                if index0 == 0:
+                    # no samples before onset
+                    continue
                 time0 = st.starttime - st.onset + index0 * st.delta
                 old_data = tr.data[:index0][::-1]
                 t = time0 - np.arange(1, index0 + 1) * st.delta
@@ -178,6 +181,9 @@ class SimpleModel(object):
             else:
                 if t0[-1] > t1[-1]:
                     index0 += 1
+                if index0 == len(tr):
+                    # no samples after onset
+                    continue
                 time0 = st.starttime - st.onset + index0 * st.delta
                 old_data = tr.data[index0:]
                 t = time0 + np.arange(len(tr) - index0) * st.delta
-- 
2.43.0


From a4becf8cbc6ba11ac8af21bec7ffe8c98038baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 18/19] fix: multitaper deconvolution for sources nearly as
 long as the response

---
 rf/deconvolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index ce1a9f5..68f22fc 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -599,7 +599,7 @@ def deconv_multitaper(rsp, src, nse, sampling_rate, tshift, gauss=0.5,
         je = int(js + ntap)
         for k in range(K):
             bit = np.zeros(nft)
-            bit[js:je] = tap[k] # insert window taper into full-length zeros
+            bit[js:je] = tap[k][:nft-js] # insert window taper into full-length zeros
             bit = bit*src_pad   # window/taper the padded source trace
             bit = fft(bit)      # transform tapered bit to frequency domain
             sfft[k] = sfft[k] + bit  # sum to total freq-domain source estimate
-- 
2.43.0


From f82ac1ae5a25deab471338ba07188a65409e1dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 19/19] fix: headers removed after reading are not written
 again

---
 rf/rfstream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index f9e66f7..a9e00cb 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -596,6 +596,8 @@ class RFTrace(Trace):
             try:
                 val = st[head]
             except KeyError:
+                # do not write an outdated value
+                st[format].pop(head_format, None)
                 continue
             try:
                 convert = _HEADER_CONVERSIONS[format][head][1]
@@ -604,9 +606,9 @@ class RFTrace(Trace):
                 pass
             st[format][head_format] = val
         if format == 'sh':
-            if sh_compat:
+            if sh_compat or len(comment) == 0:
                 st[format].pop('COMMENT', None)
-            elif len(comment) > 0:
+            else:
                 def default(obj):  # convert numpy types
                     return np.asarray(obj).item()
                 st[format]['COMMENT'] = json.dumps(
-- 
2.43.0

