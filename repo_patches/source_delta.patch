From 603918287fc0063dc81f41671df11c3bcfb798da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 01/95] fix: index Signature files that end inside a record
 header

A file cut within the first ~80 bytes of a record made the indexer raise
struct.error, so none of the complete ensembles could be read.
---
 dolfyn/io/nortek2_lib.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index b72bfb7..2f690e0 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -119,13 +119,17 @@ def _create_index(infile, outfile, N_ens, debug):
             break
         if dat[2] in ids:
             idk = dat[2]
-            d_ver, d_off, config = struct.unpack('<BBH', fin.read(4))
-            fin.seek(4, 1)
-            yr, mo, dy, h, m, s, u = struct.unpack('6BH', fin.read(8))
-            fin.seek(14, 1)
-            beams_cy = struct.unpack('<H', fin.read(2))[0]
-            fin.seek(seek_2ens[dat[2]], 1)
-            ens[idk] = struct.unpack('<I', fin.read(4))[0]
+            try:
+                d_ver, d_off, config = struct.unpack('<BBH', fin.read(4))
+                fin.seek(4, 1)
+                yr, mo, dy, h, m, s, u = struct.unpack('6BH', fin.read(8))
+                fin.seek(14, 1)
+                beams_cy = struct.unpack('<H', fin.read(2))[0]
+                fin.seek(seek_2ens[dat[2]], 1)
+                ens[idk] = struct.unpack('<I', fin.read(4))[0]
+            except struct.error:
+                # The file ends inside this record
+                break
 
             if last_ens[idk] > 0:
                 if (ens[idk] == 1) or (ens[idk] < last_ens[idk]):
-- 
2.43.0


From 3399c9a4aeb2428889be04c0eca0240518554afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 02/95] fix: record sizes in Signature headers are unsigned

A record larger than 32767 bytes was indexed with a negative size.
---
 dolfyn/io/nortek2_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 2f690e0..d31fb50 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -36,7 +36,7 @@ def _reduce_by_average_angle(data, ky0, ky1, degrees=True):
 # This is the data-type of the index file.
 # This must match what is written-out by the create_index function.
 _index_version = 1
-_hdr = struct.Struct('<BBBBhhh')
+_hdr = struct.Struct('<BBBBHHH')
 _index_dtype = {
     None:
     np.dtype([('ens', np.uint64),
-- 
2.43.0


From 8931e07be97e2f845a3c22df94befefb040e3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 03/95] fix: count the ensemble after hardware ensemble number
 0

The index counter did not advance past a record numbered 0, so the first
two ensembles of such a Signature file were merged into one.
---
 dolfyn/io/nortek2_lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index d31fb50..6c4088f 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -131,13 +131,13 @@ def _create_index(infile, outfile, N_ens, debug):
                 # The file ends inside this record
                 break
 
-            if last_ens[idk] > 0:
+            if last_ens[idk] >= 0:
                 if (ens[idk] == 1) or (ens[idk] < last_ens[idk]):
                     # Covers all id keys saved in "burst mode"
                     # Covers ID keys not saved in sequential order
                     ens[idk] = last_ens[idk] + 1
 
-            if last_ens[idk] > 0 and last_ens[idk] != ens[idk]:
+            if last_ens[idk] >= 0 and last_ens[idk] != ens[idk]:
                 N[idk] += 1
 
             fout.write(struct.pack('<QIQ4H6BHB', N[idk], ens[idk], pos, idk,
-- 
2.43.0


From a4b600d2665a303204480c4848d86f05811f9d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 04/95] fix: read Signature files that hold a single ensemble

---
 dolfyn/io/nortek2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 2395a23..90b0d87 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -145,6 +145,9 @@ class _Ad2cpReader():
         self.unknown_ID_count = {}
 
     def _calc_lastblock_iswhole(self, ):
+        if len(self._ens_pos) < 2:
+            # Nothing to compare a single ensemble to
+            return True
         blocksize, blocksize_count = np.unique(np.diff(self._ens_pos),
                                                return_counts=True)
         standard_blocksize = blocksize[blocksize_count.argmax()]
-- 
2.43.0


From 9d129e9b21ab1b6a9db5ff6f476ae47c7f4e640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 05/95] fix: never leave a partial Signature index behind

The index was written in place, and an existing index file is trusted: if
indexing was interrupted, every later read silently lost the pings that had
not been indexed.
---
 dolfyn/io/nortek2_lib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 6c4088f..c1383ec 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -1,3 +1,4 @@
+import os
 import struct
 import os.path as path
 import numpy as np
@@ -98,7 +99,9 @@ def _create_index(infile, outfile, N_ens, debug):
     logging = getLogger()
     print("Indexing {}...".format(infile), end='')
     fin = open(_abspath(infile), 'rb')
-    fout = open(_abspath(outfile), 'wb')
+    # Only a complete index may appear under the final name
+    tmpfile = _abspath(outfile) + '.part'
+    fout = open(tmpfile, 'wb')
     fout.write(b'Index Ver:')
     fout.write(struct.pack('<H', _index_version))
     ids = [21, 22, 23, 24, 26, 28,
@@ -156,6 +159,7 @@ def _create_index(infile, outfile, N_ens, debug):
             fin.seek(dat[4], 1)
     fin.close()
     fout.close()
+    os.replace(tmpfile, _abspath(outfile))
     print(" Done.")
 
 
-- 
2.43.0


From b5efc758bc5b4b768ab11c98f856f907beaa936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:03 +0000
Subject: [PATCH 06/95] fix: rebuild the Signature index when the data file is
 newer

Pings appended to (or replaced in) a data file after it was first read were
ignored, because the old index was used without question.
---
 dolfyn/io/nortek2_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index c1383ec..ceffbe0 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -249,7 +249,8 @@ def get_index(infile, rebuild=False, debug=False, dp=False):
     """
 
     index_file = infile + '.index'
-    if not path.isfile(index_file) or rebuild or debug:
+    if not path.isfile(index_file) or rebuild or debug or \
+            path.getmtime(_abspath(infile)) > path.getmtime(_abspath(index_file)):
         _create_index(infile, index_file, 2 ** 32, debug)
     f = open(_abspath(index_file), 'rb')
     file_head = f.read(12)
-- 
2.43.0


From dc398c0b2ee6759fc4f56bf745ad1da2786c279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:32 +0000
Subject: [PATCH 07/95] fix: split dual-profile files that hold as many
 averages as bursts

---
 dolfyn/io/nortek2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 90b0d87..ea5744f 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -677,7 +677,8 @@ def split_dp_datasets(ds):
 
     other_coords = []
     for key, val in t_dict.items():
-        if val != t_dict['time']:
+        # The averaged profile is separate even if it is as long as the burst one
+        if val != t_dict['time'] or key == 'time_avg':
             if key.endswith('altraw'):
                 # altraw goes with burst, altraw_avg goes with avg
                 continue
-- 
2.43.0


From 803c85527854a140025c65c0621dd492c2a9cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 08/95] fix: drop the never-recorded samples at the end of
 Vector files

---
 dolfyn/io/nortek.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index db8af56..21d91da 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -433,8 +433,9 @@ class _NortekReader():
         else:
             if self.debug:
                 logging.info(' stopped at {} bytes.'.format(self.pos))
-        self.c -= 1
-        _crop_data(self.data, slice(0, self.c), self.n_samp_guess)
+        # Drop what was allocated but never filled
+        for grp in ['coords', 'data_vars', 'sys']:
+            _crop_data(self.data[grp], slice(0, self.c), self.n_samp_guess)
         # add the start time to vectrino data coordinate time
         if self.data['attrs']['inst_model'] == 'Vectrino':
             self.data['coords']['time'] += self.config['start_time_VNO']
@@ -1278,6 +1279,9 @@ class _NortekReader():
 
 def _crop_data(obj, range, n_lastdim):
     for nm, dat in obj.items():
+        if nm == 'beam2inst_orientmat':
+            # not a time series
+            continue
         if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_lastdim):
             obj[nm] = dat[..., range]
 
-- 
2.43.0


From d6cde72a7bbb686fc6ca4dfaf9ff6c8f6416df93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 09/95] fix: honour the start of nens in Nortek files

---
 dolfyn/io/nortek.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 21d91da..c3a87c7 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -1266,6 +1266,10 @@ class _NortekReader():
     def dat2sci(self,):
         for nm in self._dtypes:
             getattr(self, 'sci_' + nm)()
+        if self._n_start:
+            # Crop the beginning, see the warning in __init__
+            for grp in ['coords', 'data_vars', 'sys']:
+                _crop_data(self.data[grp], slice(self._n_start, None), self.c)
         for nm in ['data_header', 'checkdata']:
             if nm in self.config and isinstance(self.config[nm], list):
                 self.config[nm] = _recatenate(self.config[nm])
-- 
2.43.0


From ba4d08160681746f7ad2250ba4c8b5610874469c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 10/95] fix: sample times of Vector bursts with one or two
 clock records

---
 dolfyn/io/nortek.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index c3a87c7..b5ebaa8 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -874,10 +874,10 @@ class _NortekReader():
                 p = np.poly1d(np.polyfit(inds, t[iburst][inds], 1))
                 t[iburst] = p(arng)
             elif len(inds) == 1:
-                t[iburst] = ((arng - inds[0]) / (fs * 3600 * 24) +
+                t[iburst] = ((arng - inds[0]) / fs +
                              t[iburst][inds[0]])
             else:
-                t[iburst] = (t[iburst][0] + arng / (fs * 24 * 3600))
+                t[iburst] = (t[iburst][0] + arng / fs)
 
             tmpd = tbx._nans_like(dv['heading'][iburst])
             # The first status bit should be the orientation.
-- 
2.43.0


From 4f6bf0cdb467570c8cd79ad0ea378001e0fadc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 11/95] fix: water temperature of Nortek files is signed

---
 dolfyn/io/nortek.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index b5ebaa8..6b0b8d3 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -840,7 +840,7 @@ class _NortekReader():
          dv['temp'][c],
          dv['error'][c],
          dv['status'][c],
-         ds['AnaIn'][c]) = unpack(self.endian + '2H3hH2BH', byts[8:])
+         ds['AnaIn'][c]) = unpack(self.endian + '2H4h2BH', byts[8:])
         self.checksum(byts)
 
     def sci_vec_sysdata(self,):
@@ -1065,7 +1065,7 @@ class _NortekReader():
          p_msb,
          dv['status'][c],
          p_lsw,
-         dv['temp'][c],) = unpack(self.endian + '7HBB2H', byts[8:28])
+         dv['temp'][c],) = unpack(self.endian + '7HBBHh', byts[8:28])
         dv['pressure'][c] = (65536 * p_msb + p_lsw)
         # The nortek system integrator manual specifies an 88byte 'spare'
         # field, therefore we start at 116.
-- 
2.43.0


From 6309444167e7ea80ae022a46d469174745e2dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 12/95] fix: only drop trailing samples that are nan

---
 dolfyn/io/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index 3616f78..efa6107 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -99,11 +99,15 @@ def _handle_nan(data):
                 elif len(shp) == 2:
                     if any(np.isnan(data['data_vars'][key][-1])):
                         nan += np.isnan(data['data_vars'][key][-1])
-    trailing = np.cumsum(nan)[-1]
+    # Only the run of nan's at the very end is trailing
+    trailing = l if nan.all() else np.argmin(nan[::-1])
 
     if trailing > 0:
         data['coords']['time'] = data['coords']['time'][:-trailing]
         for key in data['data_vars']:
+            if key == 'beam2inst_orientmat':
+                # not a time series
+                continue
             if data['data_vars'][key].shape[-1] == l:
                 data['data_vars'][key] = data['data_vars'][key][..., :-trailing]
 
-- 
2.43.0


From fd01e190fd5cc5b19658a5d709962a64092d5084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:06 +0000
Subject: [PATCH 13/95] fix: orientation_down is False from the record that
 says so

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 6b0b8d3..47aded5 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -885,7 +885,7 @@ class _NortekReader():
             tbx.fillgaps(tmpd, extrapFlg=True)
             tmpd = np.nan_to_num(tmpd, nan=0)  # nans in pitch roll heading
             slope = np.diff(tmpd)
-            tmpd[1:][slope < 0] = 1
+            tmpd[:-1][slope < 0] = 1
             tmpd[:-1][slope > 0] = 0
             dv['orientation_down'][iburst] = tmpd.astype('bool')
         tbx.interpgaps(dv['batt'], t)
-- 
2.43.0


From 6111562842a3ab49ec9d3cca9f783c190bcb7b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 14/95] fix: orientation matrix when no heading, pitch and roll
 are valid

---
 dolfyn/rotate/vector.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 0e8cc08..5568dd7 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -192,10 +192,11 @@ def _calc_omat(time, hh, pp, rr, orientation_down=None):
     hh = hh.data.copy()
     if np.isnan(rr[-1]) and np.isnan(pp[-1]) and np.isnan(hh[-1]):
         # The end of the data may not have valid orientations
-        lastgd = np.nonzero(~np.isnan(rr + pp + hh))[0][-1]
-        rr[lastgd:] = rr[lastgd]
-        pp[lastgd:] = pp[lastgd]
-        hh[lastgd:] = hh[lastgd]
+        gd = np.nonzero(~np.isnan(rr + pp + hh))[0]
+        if len(gd):
+            rr[gd[-1]:] = rr[gd[-1]]
+            pp[gd[-1]:] = pp[gd[-1]]
+            hh[gd[-1]:] = hh[gd[-1]]
     if orientation_down is not None:
         # For Nortek Vector ADVs: 'down' configuration means the head was
         # pointing 'up', where the 'up' orientation corresponds to the
-- 
2.43.0


From 1263a709a373c7c9d49333a24336ceeb82f1a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:01 +0000
Subject: [PATCH 15/95] fix: read the inertial data of the last ping of a
 window

---
 dolfyn/io/nortek.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 47aded5..e045185 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -421,11 +421,9 @@ class _NortekReader():
                     self.findnext()
                     retval = None
                 if self._npings is not None and self.c >= self._npings:
-                    if 'microstrain' in self._dtypes:
-                        try:
-                            self.readnext()
-                        except:
-                            pass
+                    # The inertial data of the last ping follows it
+                    if self.read_id() == 0x71:
+                        self.read_microstrain()
                     break
         except EOFError:
             if self.debug:
-- 
2.43.0


From d5ec48f6c602ba1b88ee030ee273e7a7bdd524bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:17 +0000
Subject: [PATCH 16/95] fix: allocate enough profiles for AWAC files with an
 odd number of bins

---
 dolfyn/io/nortek.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index e045185..e54d473 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -322,12 +322,10 @@ class _NortekReader():
         da.update(self.config['head'])
         da.update(self.config['hdw'])
 
-        space = self.code_spacing('0x20')
-        if space == 0:
-            # code spacing is zero if there's only 1 profile
-            self.n_samp_guess = 1
-        else:
-            self.n_samp_guess = int(self.filesize / space + 1)
+        # Every profile takes this many bytes, see read_awac_profile
+        space = 120 + 3 * self.config['usr']['n_beams'] * \
+            self.config['usr']['n_bins']
+        self.n_samp_guess = int(self.filesize / space + 1)
 
     def init_VNO(self,):
         dat = self.data = {'data_vars': {}, 'coords': {}, 'attrs': {},
-- 
2.43.0


From 2c3dfccbf7c82631ff8054f86c3bf475fcd0eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 17/95] fix: do not crop the range of AWAC files with the start
 of nens

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index e54d473..e6662e4 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -1279,7 +1279,7 @@ class _NortekReader():
 
 def _crop_data(obj, range, n_lastdim):
     for nm, dat in obj.items():
-        if nm == 'beam2inst_orientmat':
+        if nm in ['beam2inst_orientmat', 'range']:
             # not a time series
             continue
         if isinstance(dat, np.ndarray) and (dat.shape[-1] == n_lastdim):
-- 
2.43.0


From f50c7bd47b27e0ed0c2dff06fb8165128f9b3aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 18/95] fix: AWAC heading, pitch and roll are signed

---
 dolfyn/io/nortek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index e6662e4..d4f6c12 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -1061,7 +1061,7 @@ class _NortekReader():
          p_msb,
          dv['status'][c],
          p_lsw,
-         dv['temp'][c],) = unpack(self.endian + '7HBBHh', byts[8:28])
+         dv['temp'][c],) = unpack(self.endian + '4H3hBBHh', byts[8:28])
         dv['pressure'][c] = (65536 * p_msb + p_lsw)
         # The nortek system integrator manual specifies an 88byte 'spare'
         # field, therefore we start at 116.
-- 
2.43.0


From cd0102900969a794ef2a4fcdd48bb610bba726fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:51 +0000
Subject: [PATCH 19/95] fix: do_checksum detects damaged Nortek data blocks

---
 dolfyn/io/nortek.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index d4f6c12..5fd0464 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -388,7 +388,7 @@ class _NortekReader():
                                 "in ping %d. Searching for next valid code..." %
                                 (tmp[0], tmp[1], self.c))
             val = int(self.findnext(do_cs=False), 0)
-            self.f.seek(2, 1)
+            self._thisid_bytes = self.read(2)
             if self.debug:
                 logging.debug(
                     ' ...FOUND {} at position: {}.'.format(val, self.pos))
@@ -472,10 +472,12 @@ class _NortekReader():
         """Perform a checksum on `byts` and read the checksum value.
         """
         if self.do_checksum:
-            if not np.sum(unpack(self.endian + str(int(1 + len(byts) / 2)) + 'H',
-                                 self._thisid_bytes + byts)) + \
-                    46476 - unpack(self.endian + 'H', self.read(2)):
-
+            words = self._thisid_bytes + byts
+            if len(words) % 2:
+                words += b'\x00'
+            cs = np.sum(unpack(self.endian + str(len(words) // 2) + 'H',
+                               words)) + 46476
+            if cs % 65536 != unpack(self.endian + 'H', self.read(2))[0]:
                 raise Exception("CheckSum Failed at {}".format(self.pos))
         else:
             self.f.seek(2, 1)
-- 
2.43.0


From 768cf5b150488a8b30ad9b44aa103fcd271fa696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 20/95] fix: RDI ensemble numbers above 65535 roll over at
 65536

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 80f2fc8..4376d19 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -840,7 +840,7 @@ class _RDIReader():
                            'adc']
         ens.number[k] = fd.read_ui16(1)
         ens.rtc[:, k] = fd.read_ui8(7)
-        ens.number[k] += 65535 * fd.read_ui8(1)
+        ens.number[k] += 65536 * fd.read_ui8(1)
         ens.builtin_test_fail[k] = fd.read_ui16(1)
         ens.c_sound[k] = fd.read_ui16(1)
         ens.depth[k] = fd.read_ui16(1) * 0.1
-- 
2.43.0


From 107ac20c9fa38dbf3ac8bf668b86b800d5bf0bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:17 +0000
Subject: [PATCH 21/95] fix: no pressure variable for RDI firmware that records
 none

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 4376d19..e6ca4af 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -873,10 +873,10 @@ class _RDIReader():
                 self._nbyte += 2
         else:
             ens.error_status[k] = np.binary_repr(fd.read_ui32(1), 32)
-            self.vars_read += ['pressure', 'pressure_std']
             self._nbyte += 4
             if cfg['prog_ver'] >= 8.13:
                 # Added pressure sensor stuff in 8.13
+                self.vars_read += ['pressure', 'pressure_std']
                 fd.seek(2, 1)
                 ens.pressure[k] = fd.read_ui32(1) / 1000  # dPa to dbar
                 ens.pressure_std[k] = fd.read_ui32(1) / 1000
-- 
2.43.0


From cfb9852aa00f7dc2265d4c883bb7b9ba90e3033c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 22/95] fix: read WinRiver depth-sounder data when position
 times repeat

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index e6ca4af..2f709c7 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -148,7 +148,7 @@ def _remove_gps_duplicates(dat):
         dat['coords']['time_gps'] = dat['coords']['time_gps'][~nan]
 
     for key in dat['data_vars']:
-        if ('gps' in key) or ('nmea' in key):
+        if 'gps' in key:
             dat['data_vars'][key] = dat['data_vars'][key][idx]
             if sum(nan) > 0:
                 dat['data_vars'][key] = dat['data_vars'][key][~nan]
-- 
2.43.0


From 857f714483af62bb6b22d0845c0f935df13fbf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 23/95] fix: read RDI files that end inside an ensemble header

---
 dolfyn/io/rdi.py     | 22 ++++++++++------------
 dolfyn/io/rdi_lib.py |  3 ++-
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 2f709c7..57b7c29 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -525,24 +525,22 @@ class _RDIReader():
         valid = False
         if self._debug_level >= 0:
             logging.info('pos {}'.format(self.f.pos))
+        pos = fd.tell()
         numbytes = fd.read_i16(1)
-        if numbytes > 0:
+        if numbytes is not None and numbytes > 0:
             fd.seek(numbytes - 2, 1)
             cfgid = fd.read_ui8(2)
             if cfgid is None:
                 if self._debug_level > 1:
                     logging.info('EOF')
-                return False
-            if len(cfgid) == 2:
-                fd.seek(-numbytes - 2, 1)
-                if cfgid[0] == 127 and cfgid[1] in [127, 121]:
-                    if cfgid[1] == 121 and self._debug7f79 is None:
-                        self._debug7f79 = True
-                        if self._debug_level > 1:
-                            logging.warning('7f79!!!')
-                    valid = True
-        else:
-            fd.seek(-2, 1)
+            elif cfgid[0] == 127 and cfgid[1] in [127, 121]:
+                if cfgid[1] == 121 and self._debug7f79 is None:
+                    self._debug7f79 = True
+                    if self._debug_level > 1:
+                        logging.warning('7f79!!!')
+                valid = True
+        # Always continue right behind the header id
+        fd.seek(pos, 0)
         if self._debug_level > 1:
             logging.info("  ###Leaving checkheader.")
         return valid
diff --git a/dolfyn/io/rdi_lib.py b/dolfyn/io/rdi_lib.py
index a707f8f..0128ffa 100644
--- a/dolfyn/io/rdi_lib.py
+++ b/dolfyn/io/rdi_lib.py
@@ -77,7 +77,8 @@ class bin_reader():
 
     def read(self, n, frmt):
         val = self.f.read(n * self._size_factor[frmt])
-        if not val:  # If val is empty we are at the end of the file.
+        if len(val) < n * self._size_factor[frmt]:
+            # Too few bytes: we are at the end of the file.
             return None
         self.cs and self.cs.add(val)
         if n == 1:
-- 
2.43.0


From 2c32d05be12914628c73003871261f41a57f29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 24/95] fix: skip RDI blocks of unknown type by the offsets in
 the header

---
 dolfyn/io/rdi.py | 33 ++++-----------------------------
 1 file changed, 4 insertions(+), 29 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 57b7c29..1ffcaed 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -286,11 +286,9 @@ class _RDIReader():
         if self._debug_level >= 0:
             logging.info(self.hdr)
             logging.info('pos {}'.format(pos))
-        self.id_positions = {}
         for offset in self.hdr['dat_offsets']:
             self.f.seek(offset+pos - self.hdr['dat_offsets'][0], rel=0)
             id = self.f.read_ui16(1)
-            self.id_positions[id] = offset
             if self._debug_level >= 0:
                 logging.info('pos {} id {}'.format(offset, id))
             if id == 1:
@@ -1272,34 +1270,11 @@ class _RDIReader():
         self._nbyte = 2 + n_skip
 
     def read_nocode(self, id):
-        # Skipping bytes from codes 0340-30FC, commented if needed
-        hxid = hex(id)
-        if hxid[2:4] == '30':
-            logging.warning("Skipping bytes from codes 0340-30FC")
-            # I want to count the number of 1s in the middle 4 bits
-            # of the 2nd two bytes.
-            # 60 is a 0b00111100 mask
-            nflds = (bin(int(hxid[3]) & 60).count('1') +
-                     bin(int(hxid[4]) & 60).count('1'))
-            # I want to count the number of 1s in the highest
-            # 2 bits of byte 3
-            # 3 is a 0b00000011 mask:
-            dfac = bin(int(hxid[3], 0) & 3).count('1')
-            self.skip_Nbyte(12 * nflds * dfac)
-        else:
-            if self._debug_level >= 0:
-                logging.warning('  Unrecognized ID code: %0.4X' % id)
-            self.skip_nocode(id)
-
-    def skip_nocode(self, id):
-        # Skipping bytes if ID isn't known
-        offsets = list(self.id_positions.values())
-        idx = np.where(offsets == self.id_positions[id])[0][0]
-        byte_len = offsets[idx+1] - offsets[idx] - 2
-
-        self.skip_Nbyte(byte_len)
+        # The length of an unknown block follows from the header's offsets:
+        # 'read_buffer' moves on to the next block from here
         if self._debug_level >= 0:
-            logging.debug(f"Skipping ID code {id}\n")
+            logging.warning('  Unrecognized ID code: %0.4X' % id)
+        self._nbyte = 2
 
     def cleanup(self, cfg, dat):
         dat['coords']['range'] = (cfg['bin1_dist_m'] +
-- 
2.43.0


From 701c5cae8bfb93cc67a4ad49d9a66b81411e6df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 25/95] fix: continue at the next header after an RDI ensemble
 of odd length

---
 dolfyn/io/rdi.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 1ffcaed..3de64ac 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -187,7 +187,6 @@ class _RDIReader():
     progress = 0
     _cfac = 180 / 2 ** 31
     _source = 0
-    _fixoffset = 0
     _nbyte = 0
     _search_num = 30000  # Maximum distance? to search
     _debug7f79 = None
@@ -573,16 +572,15 @@ class _RDIReader():
 
     def check_offset(self, offset, readbytes):
         fd = self.f
-        if offset != 4 and self._fixoffset == 0:
-            if self._debug_level > 0:
-                if fd.tell() == self._filesize:
-                    logging.error(
-                        ' EOF reached unexpectedly - discarding this last ensemble\n')
-                else:
-                    logging.debug("  Adjust location by {:d} (readbytes={:d},hdr['nbyte']={:d})\n"
-                                  .format(offset, readbytes, self.hdr['nbyte']))
-            self._fixoffset = offset - 4
-        fd.seek(4 + self._fixoffset, 1)
+        if offset != 4 and self._debug_level > 0:
+            if fd.tell() == self._filesize:
+                logging.error(
+                    ' EOF reached unexpectedly - discarding this last ensemble\n')
+            else:
+                logging.debug("  Adjust location by {:d} (readbytes={:d},hdr['nbyte']={:d})\n"
+                              .format(offset, readbytes, self.hdr['nbyte']))
+        # The next ensemble starts right behind this one
+        fd.seek(offset, 1)
 
     def remove_end(self, iens):
         dat = self.outd
-- 
2.43.0


From a54c455b58f8888f7d8a4a6a673387d665d033cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:03 +0000
Subject: [PATCH 26/95] fix: count the ensembles of RDI files exactly

---
 dolfyn/io/rdi.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 3de64ac..e8cc59e 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -205,8 +205,8 @@ class _RDIReader():
 
         # Check header, double buffer, and get filesize
         self._filesize = getsize(self.fname)
-        space = self.code_spacing()  # '0x7F'
-        self._npings = int(self._filesize / (space + 2))
+        self.code_spacing()  # '0x7F'
+        self._npings = self.count_pings()
         if self._debug_level >= 0:
             logging.info('Done: {}'.format(self.cfg))
             logging.info('self._bb {}'.format(self._bb))
@@ -252,6 +252,34 @@ class _RDIReader():
         self._debug_level = debug_level
         return size
 
+    def count_pings(self):
+        """
+        Returns the number of ensemble headers in the file that are
+        followed by another header (or the end of the file).
+        """
+        fd = self.f.f
+        npings = 0
+        pos = self._pos
+        while True:
+            fd.seek(pos, 0)
+            hdr = fd.read(4)
+            if len(hdr) < 4:
+                break
+            if hdr[:2] in (b'\x7f\x7f', b'\x7f\x79'):
+                end = pos + int.from_bytes(hdr[2:], 'little') + 2
+                fd.seek(end, 0)
+                if end == self._filesize or \
+                        fd.read(2) in (b'\x7f\x7f', b'\x7f\x79'):
+                    npings += 1
+                    pos = end
+                    continue
+            # Not an ensemble: go to the next 7f
+            fd.seek(pos + 1, 0)
+            chunk = fd.read(65536)
+            skip = chunk.find(b'\x7f')
+            pos += 1 + (skip if skip >= 0 else len(chunk))
+        return npings
+
     def read_hdr(self,):
         fd = self.f
         cfgid = list(fd.read_ui8(2))
-- 
2.43.0


From 53c006a2cc429ee65b528622d30c72b2988fd143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 27/95] fix: read the user-data file whose path is given
 explicitly

---
 dolfyn/io/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dolfyn/io/base.py b/dolfyn/io/base.py
index efa6107..f233e52 100644
--- a/dolfyn/io/base.py
+++ b/dolfyn/io/base.py
@@ -41,15 +41,14 @@ def _get_filetype(fname):
 
 def _find_userdata(filename, userdata=True):
     # This function finds the file to read
-    if userdata:
+    if isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
+        return _read_userdata(userdata)
+    elif userdata:
         for basefile in [filename.rsplit('.', 1)[0],
                          filename]:
             jsonfile = basefile + '.userdata.json'
             if os.path.isfile(jsonfile):
                 return _read_userdata(jsonfile)
-
-    elif isinstance(userdata, (str, )) or hasattr(userdata, 'read'):
-        return _read_userdata(userdata)
     return {}
 
 
-- 
2.43.0


From 565233414c52c1b82fe5314cb5cc0a5a4846eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 28/95] fix: saving a dataset does not change the dataset in
 memory

---
 dolfyn/io/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index caeca76..1631283 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -164,6 +164,9 @@ def save(ds, filename,
 
     filename = _check_file_ext(filename, 'nc')
 
+    # Leave the caller's dataset as it is
+    ds = ds.copy()
+
     # Handling complex values for netCDF4
     ds.attrs['complex_vars'] = []
     for var in ds.data_vars:
@@ -282,6 +285,9 @@ def save_mat(ds, filename, datenum=True):
 
     filename = _check_file_ext(filename, 'mat')
 
+    # Leave the caller's dataset as it is
+    ds = ds.copy()
+
     # Convert time to datenum
     t_coords = [t for t in ds.coords if np.issubdtype(
         ds[t].dtype, np.datetime64)]
-- 
2.43.0


From ea42281c5e87c29687d2a4ef76dc13e6d9a002da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 29/95] fix: the encoding given to save takes precedence

---
 dolfyn/io/api.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 1631283..90e54cb 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -183,8 +183,6 @@ def save(ds, filename,
 
     # Write variable encoding
     enc = dict()
-    if 'encoding' in kwargs:
-        enc.update(kwargs['encoding'])
     for ky in ds.variables:
         # Save prior encoding
         enc[ky] = ds[ky].encoding
@@ -199,6 +197,10 @@ def save(ds, filename,
                 continue
             enc[ky].update(dict(zlib=True, complevel=1))
 
+    # The user's encoding takes precedence
+    for ky, val in kwargs.get('encoding', {}).items():
+        enc.setdefault(ky, {}).update(val)
+
     kwargs['encoding'] = enc
 
     # Fix encoding on datetime64 variables.
-- 
2.43.0


From fe5cad8a2956c4b603ebadc89371c694983bbbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 30/95] fix: datasets loaded from compressed files can be saved

---
 dolfyn/io/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 90e54cb..dd0fe8f 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -188,7 +188,8 @@ def save(ds, filename,
         enc[ky] = ds[ky].encoding
         # Remove unexpected netCDF4 encoding parameters
         # https://github.com/pydata/xarray/discussions/5709
-        params = ['szip', 'zstd', 'bzip2', 'blosc', 'contiguous', 'chunksizes']
+        params = ['szip', 'zstd', 'bzip2', 'blosc', 'contiguous', 'chunksizes',
+                  'preferred_chunks']
         [enc[ky].pop(p) for p in params if p in enc[ky]]
 
         if compression:
-- 
2.43.0


From 71316c825a7233af00a56f8d73212fd8eb8f5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 31/95] fix: load complex variables whose names are one
 character long

---
 dolfyn/io/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index dd0fe8f..cbc5d07 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -244,7 +244,7 @@ def load(filename):
     # Rejoin complex numbers
     if hasattr(ds, 'complex_vars'):
         if len(ds.complex_vars):
-            if len(ds.complex_vars[0]) == 1:
+            if isinstance(ds.complex_vars, str):
                 ds.attrs['complex_vars'] = [ds.complex_vars]
             for var in ds.complex_vars:
                 ds[var] = ds[var + '_real'] + ds[var + '_imag'] * 1j
-- 
2.43.0


From 1d038228dfcc65704ce37ac74d84d2e200caeb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 32/95] fix: variables that became floating point are not saved
 as integers

---
 dolfyn/io/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index cbc5d07..b1a2ae3 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -192,6 +192,11 @@ def save(ds, filename,
                   'preferred_chunks']
         [enc[ky].pop(p) for p in params if p in enc[ky]]
 
+        # Data that is no longer integer can't be stored as integer
+        if ds[ky].dtype.kind == 'f' and 'scale_factor' not in enc[ky] and \
+                np.dtype(enc[ky].get('dtype', float)).kind in 'iu':
+            enc[ky].pop('dtype')
+
         if compression:
             # New netcdf4-c cannot compress variable length strings
             if ds[ky].size <= 1 or isinstance(ds[ky].data[0], str):
-- 
2.43.0


From 5c9f525bb1c74435738ddf6e40bc26ac6eb0e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 33/95] fix: fractional epoch times before 1970 convert to the
 right second

---
 dolfyn/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/time.py b/dolfyn/time.py
index 29b0b2a..8983b46 100644
--- a/dolfyn/time.py
+++ b/dolfyn/time.py
@@ -26,7 +26,7 @@ def epoch2dt64(ep_time):
     """
 
     # assumes t0=1970-01-01 00:00:00
-    out = np.array(ep_time.astype('int')).astype('datetime64[s]')
+    out = np.array(np.floor(ep_time).astype('int')).astype('datetime64[s]')
     out = out + ((ep_time % 1) * 1e9).astype('timedelta64[ns]')
     return out
 
-- 
2.43.0


From 7c7c4141c7b0e7ea0f647255a331a95acbef19ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 34/95] fix: one damaged clock does not make a Nortek file
 unreadable

---
 dolfyn/io/nortek.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dolfyn/io/nortek.py b/dolfyn/io/nortek.py
index 5fd0464..f97b8a9 100644
--- a/dolfyn/io/nortek.py
+++ b/dolfyn/io/nortek.py
@@ -620,12 +620,17 @@ class _NortekReader():
         """Read the time from the first 6bytes of the input string.
         """
         min, sec, day, hour, year, month = unpack('BBBBBB', strng[:6])
-        return time.date2epoch(datetime(time._fullyear(_bcd2char(year)),
-                                        _bcd2char(month),
-                                        _bcd2char(day),
-                                        _bcd2char(hour),
-                                        _bcd2char(min),
-                                        _bcd2char(sec)))[0]
+        try:
+            dt = datetime(time._fullyear(_bcd2char(year)),
+                          _bcd2char(month),
+                          _bcd2char(day),
+                          _bcd2char(hour),
+                          _bcd2char(min),
+                          _bcd2char(sec))
+        except ValueError:
+            # Damaged clock, filled in later
+            return np.NaN
+        return time.date2epoch(dt)[0]
 
     def _init_data(self, vardict):
         """Initialize the data object according to vardict.
-- 
2.43.0


From 8703c8a895c1004c018d26ea64eae548ee289cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:40 +0000
Subject: [PATCH 35/95] fix: read TRDI files whose first ensemble has an
 invalid clock

---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index e8cc59e..2c28a2b 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -71,7 +71,7 @@ def read_rdi(filename, userdata=None, nens=None, debug_level=-1,
             dat['attrs'][nm] = userdata[nm]
 
         # Pass one if only one ds returned
-        if not np.isfinite(dat['coords']['time'][0]):
+        if not np.isfinite(dat['coords']['time']).any():
             continue
 
         # GPS data not necessarily sampling at the same rate as ADCP DAQ.
-- 
2.43.0


From 79e56cb41df419fca7056e50e9c906eba7cc8382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:03 +0000
Subject: [PATCH 36/95] fix: read averaged Signature profiles that hold no AHRS
 data

---
 dolfyn/io/nortek2.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index ea5744f..71994d0 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -99,8 +99,9 @@ def read_signature(filename, userdata=True, nens=None, rebuild_index=False,
     ds = _set_coords(ds, ref_frame=ds.coord_sys)
 
     if 'orientmat' not in ds:
+        tag = '' if 'heading' in ds else '_avg'
         ds['orientmat'] = _euler2orient(
-            ds['time'], ds['heading'], ds['pitch'], ds['roll'])
+            ds['time'], ds['heading' + tag], ds['pitch' + tag], ds['roll' + tag])
 
     if declin is not None:
         set_declination(ds, declin, inplace=True)
@@ -623,7 +624,7 @@ def _reduce(data):
         dc['range_avg'] = ((np.arange(dv['vel_avg'].shape[1])+1) *
                            da['cell_size_avg'] +
                            da['blank_dist_avg'])
-        if 'orientmat' not in dv:
+        if 'orientmat' not in dv and 'orientmat_avg' in dv:
             dv['orientmat'] = dv.pop('orientmat_avg')
         tmat = da['filehead_config']['XFAVG']
         da['fs'] = da['filehead_config']['PLAN']['MIAVG']
@@ -709,7 +710,13 @@ def split_dp_datasets(ds):
     ds2.attrs['rotate_vars'] = rotate_vars2
     # Set orientation matricies
     ds2['beam2inst_orientmat'] = ds['beam2inst_orientmat']
-    ds2 = ds2.rename({'orientmat_' + other_tags[0]: 'orientmat'})
+    tag = '_' + other_tags[0]
+    if 'orientmat' + tag in ds2:
+        ds2 = ds2.rename({'orientmat' + tag: 'orientmat'})
+    else:
+        ds2['orientmat'] = _euler2orient(
+            ds2['time' + tag].values, ds2['heading' + tag],
+            ds2['pitch' + tag], ds2['roll' + tag]).rename({'time': 'time' + tag})
     # Set original coordinate system
     cy = ds2.attrs['coord_sys_axes_' + other_tags[0]]
     ds2.attrs['coord_sys'] = {'XYZ': 'inst',
-- 
2.43.0


From 395a0e2f8133c05c36ca36f863deda3e1d56ca96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:03 +0000
Subject: [PATCH 37/95] fix: index Signature records whose month is damaged

---
 dolfyn/io/nortek2_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index ceffbe0..b6d47ba 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -145,7 +145,7 @@ def _create_index(infile, outfile, N_ens, debug):
 
             fout.write(struct.pack('<QIQ4H6BHB', N[idk], ens[idk], pos, idk,
                                    config, beams_cy, 0,
-                                   yr, mo + 1, dy, h, m, s, u, d_ver))
+                                   yr, (mo + 1) % 256, dy, h, m, s, u, d_ver))
             fin.seek(dat[4] - (36 + seek_2ens[idk]), 1)
             last_ens[idk] = ens[idk]
 
-- 
2.43.0


From d5acc5a4ccf2b572640c3c4f2ba0b4ab19fbb3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:44 +0000
Subject: [PATCH 38/95] fix: rotate AWAC data that hold no orientation matrix

---
 dolfyn/rotate/vector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolfyn/rotate/vector.py b/dolfyn/rotate/vector.py
index 5568dd7..edec154 100644
--- a/dolfyn/rotate/vector.py
+++ b/dolfyn/rotate/vector.py
@@ -94,6 +94,7 @@ def _inst2earth(advo, reverse=False, rotate_vars=None, force=False):
     if hasattr(advo, 'orientmat'):
         omat = advo['orientmat']
     else:
+        orientation_down = None
         if 'vector' in advo.inst_model.lower():
             orientation_down = advo['orientation_down']
 
-- 
2.43.0


From c68c8490ba3aa72ee4a7831debe0a2f723228195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:27 +0000
Subject: [PATCH 39/95] fix: principal heading of velocities that are all
 missing

---
 dolfyn/rotate/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index eb5b38f..915bd9a 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -159,7 +159,7 @@ def calc_principal_heading(vel, tidal_mode=True):
         # Now double the angle, so that angles near pi and 0 get averaged
         # together correctly:
         dt *= np.exp(1j * np.angle(dt))
-        dt = np.ma.masked_invalid(dt)
+        dt = np.where(np.isfinite(dt), dt, np.nan)
         # Divide the angle by 2 to remove the doubling done on the previous
         # line.
         pang = np.angle(
-- 
2.43.0


From 725d6de3d95f31e1146db3be6e496a9eca04eff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:30 +0000
Subject: [PATCH 40/95] fix: principal heading without tidal_mode is between 0
 and 360

---
 dolfyn/rotate/api.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index 915bd9a..5847b68 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -167,7 +167,11 @@ def calc_principal_heading(vel, tidal_mode=True):
     else:
         pang = np.angle(np.nanmean(dt, -1))
 
-    return np.round((90 - np.rad2deg(pang)), decimals=4)
+    p_heading = 90 - np.rad2deg(pang)
+    if not tidal_mode:
+        p_heading = p_heading % 360
+
+    return np.round(p_heading, decimals=4)
 
 
 def set_declination(ds, declin, inplace=True):
-- 
2.43.0


From 3472ed497861a944386ba02ef0a1ffe850c2772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:41 +0000
Subject: [PATCH 41/95] fix: raw altimeter records that are not in every
 Signature ensemble

---
 dolfyn/io/nortek2_lib.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index b6d47ba..0450daa 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -179,8 +179,19 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
         warnings.warn("Dual Profile detected... Two datasets will be returned.")
         dp = True
 
+    # Raw altimeter records may be recorded infrequently, so counting them
+    # doesn't number them: they belong to the profile they are next to
+    israw = np.isin(idx['ID'], [26, 31])
+    prof = np.nonzero(~israw)[0]
+    if len(prof):
+        for i in np.nonzero(israw)[0]:
+            k = np.searchsorted(prof, i)
+            near = prof[max(k - 1, 0):k + 1]
+            same = near[idx['hw_ens'][near] == idx['hw_ens'][i]]
+            ens[i] = ens[same[0] if len(same) else near[0]]
+
     # This loop fixes 'skips' inside the file
-    for id in uid:
+    for id in np.setdiff1d(uid, [26, 31]) if len(prof) else uid:
         # These are the indices for this ID
         inds = np.nonzero(idx['ID'] == id)[0]
         # These are bad steps in the indices for this ID
-- 
2.43.0


From 92616f2071840396de325ba7bbfcc4152c5b79e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:25 +0000
Subject: [PATCH 42/95] fix: bin sizes that are not whole numbers could index
 past the end of the record

---
 dolfyn/binned.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index d61e935..f66d376 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -49,8 +49,8 @@ class TimeBinner:
     def _outshape(self, inshape, n_pad=0, n_bin=None):
         """Returns `outshape` (the 'reshape'd shape) for an `inshape` array.
         """
-        n_bin = int(self._parse_nbin(n_bin))
-        return list(inshape[:-1]) + [int(inshape[-1] // n_bin), int(n_bin + n_pad)]
+        n_bin = self._parse_nbin(n_bin)
+        return list(inshape[:-1]) + [int(inshape[-1] // n_bin), int(n_bin) + int(n_pad)]
 
     def _outshape_fft(self, inshape, n_fft=None, n_bin=None):
         """Returns `outshape` (the fft 'reshape'd shape) for an `inshape` array.
@@ -212,11 +212,6 @@ class TimeBinner:
         else:
             inds = (np.arange(np.prod(shp[-2:])) * n_bin // int(n_bin)
                     ).astype(int)
-            # If there are too many indices, drop one bin
-            if inds[-1] >= arr.shape[-1]:
-                inds = inds[:-int(n_bin)]
-                shp[-2] -= 1
-                out = out[..., 1:, :]
             n_bin = int(n_bin)
             out[..., npd0:n_bin + npd0] = (arr[..., inds]
                                            ).reshape(shp, order='C')
-- 
2.43.0


From af812ddbe3daf6eaad3030b5ca604dc4320216e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:25 +0000
Subject: [PATCH 43/95] fix: detrend integer data

---
 dolfyn/tools/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index baba0be..1dc287a 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -43,7 +43,8 @@ def detrend(arr, axis=-1, in_place=False):
     
     arr = np.asarray(arr)
     if not in_place:
-        arr = arr.copy()
+        # The residuals of integer data are not integers
+        arr = arr.astype(np.result_type(arr.dtype, np.float32))
     sz = np.ones(arr.ndim, dtype=int)
     sz[axis] = arr.shape[axis]
     x = np.arange(sz[axis], dtype=np.float_).reshape(sz)
-- 
2.43.0


From d65471c80c755979290ede6394c784537f498380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:55 +0000
Subject: [PATCH 44/95] fix: detrend data with missing samples: fit the trend
 to the valid samples

---
 dolfyn/tools/misc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index 1dc287a..c5cf520 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -48,10 +48,15 @@ def detrend(arr, axis=-1, in_place=False):
     sz = np.ones(arr.ndim, dtype=int)
     sz[axis] = arr.shape[axis]
     x = np.arange(sz[axis], dtype=np.float_).reshape(sz)
+    bad = np.isnan(arr)
+    if bad.any():
+        # Fit the trend to the valid points only
+        x = np.where(bad, np.nan, x)
     x -= np.nanmean(x, axis=axis, keepdims=True)
     arr -= np.nanmean(arr, axis=axis, keepdims=True)
+    x2 = np.nanmean((x ** 2), axis=axis, keepdims=True)
     b = np.nanmean((x * arr), axis=axis, keepdims=True) / \
-        np.nanmean((x ** 2), axis=axis, keepdims=True)
+        np.where(x2 == 0, 1, x2)
     arr -= b * x
     return arr
 
-- 
2.43.0


From feb78d8f263c04598f0049199962bea0901626cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:38 +0000
Subject: [PATCH 45/95] fix: calc_psd: use the n_bin given for the data and the
 times

---
 dolfyn/binned.py   | 2 +-
 dolfyn/velocity.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index f66d376..8245907 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -391,7 +391,7 @@ class TimeBinner:
             n_pad = min(n_bin - n_fft, n_fft)
         out = np.empty(self._outshape_fft(dat.shape, n_fft=n_fft, n_bin=n_bin))
         # The data is detrended in psd, so we don't need to do it here.
-        dat = self.reshape(dat, n_pad=n_pad)
+        dat = self.reshape(dat, n_pad=n_pad, n_bin=n_bin)
 
         for slc in slice1d_along_axis(dat.shape, -1):
             out[slc] = psd(dat[slc], n_fft, fs,
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index c647c0d..737eab2 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -1134,7 +1134,7 @@ class VelBinner(TimeBinner):
                                               n_fft=n_fft,
                                               step=step)
             coords = {'S': self.S,
-                      'time': self.mean(veldat['time'].values),
+                      'time': self.mean(veldat['time'].values, n_bin=n_bin),
                       'freq': freq}
             dims = ['S', 'time', 'freq']
         else:
@@ -1151,7 +1151,8 @@ class VelBinner(TimeBinner):
                                      n_pad=n_pad,
                                      n_fft=n_fft,
                                      step=step)
-            coords = {veldat.dims[-1]: self.mean(veldat[veldat.dims[-1]].values),
+            coords = {veldat.dims[-1]: self.mean(veldat[veldat.dims[-1]].values,
+                                                 n_bin=n_bin),
                       'freq': freq}
             dims = [veldat.dims[-1], 'freq']
 
-- 
2.43.0


From 52d7c64f02d5b4dbf575ce49c42b11f5a5734107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 46/95] fix: cross-spectra: use the n_bin given, and bins of
 the same timespan for signals of different lengths

---
 dolfyn/adv/turbulence.py | 2 +-
 dolfyn/binned.py         | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 1f4ccae..2ce78b4 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -128,7 +128,7 @@ class ADVBinner(VelBinner):
 
         fs_in = self._parse_fs(fs)
         n_fft = self._parse_nfft_coh(n_fft_coh)
-        time = self.mean(veldat.time.values)
+        time = self.mean(veldat.time.values, n_bin=n_bin)
         veldat = veldat.values
         if len(np.shape(veldat)) != 2:
             raise Exception("This function is only valid for calculating TKE using "
diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 8245907..258f317 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -449,8 +449,8 @@ class TimeBinner:
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
 
         # The data is detrended in psd, so we don't need to do it here:
-        dat1 = self.reshape(dat1, n_pad=n_fft)
-        dat2 = self.reshape(dat2, n_pad=n_fft)
+        dat1 = self.reshape(dat1, n_pad=n_fft, n_bin=n_bin1)
+        dat2 = self.reshape(dat2, n_pad=n_fft, n_bin=n_bin2)
         out = np.empty(oshp, dtype='c{}'.format(dat1.dtype.itemsize * 2))
         if dat1.shape == dat2.shape:
             cross = cpsd
-- 
2.43.0


From 8685ba158be0aa61770bf4f8c69401fc4029819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 47/95] fix: bins of signals of the same length could differ by
 one sample by rounding (coherence, cross-spectra, cross-covariance)

---
 dolfyn/binned.py   | 2 +-
 dolfyn/velocity.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 258f317..b2d9c3b 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -443,7 +443,7 @@ class TimeBinner:
             n_fft = self.n_fft_coh
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 // dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 737eab2..5f95efa 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -683,7 +683,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 // dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -759,7 +759,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)  # bins for shorter array
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 // dat2.shape[-1])
 
         oshp = self._outshape_fft(dat1.shape, n_fft=n_fft, n_bin=n_bin1)
         oshp[-2] = np.min([oshp[-2], int(dat2.shape[-1] // n_bin2)])
@@ -885,7 +885,7 @@ class VelBinner(TimeBinner):
 
         # want each slice to carry the same timespan
         n_bin2 = self._parse_nbin(n_bin)
-        n_bin1 = int(dat1.shape[-1]/(dat2.shape[-1]/n_bin2))
+        n_bin1 = int(dat1.shape[-1] * n_bin2 // dat2.shape[-1])
 
         shp = self._outshape(dat1.shape, n_bin=n_bin1)
         shp[-2] = min(shp[-2], self._outshape(dat2.shape, n_bin=n_bin2)[-2])
-- 
2.43.0


From b0824aaf2abc84cd6ed91d25fe5ec874f9b87aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:39 +0000
Subject: [PATCH 48/95] fix: calc_coh, calc_phase_angle: frequencies of the
 n_fft_coh given

---
 dolfyn/velocity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 5f95efa..8c38952 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -698,7 +698,7 @@ class VelBinner(TimeBinner):
                                  window=window, debias=debias,
                                  noise=noise)
 
-        freq = self.calc_freq(self.fs, units='Hz', coh=True)
+        freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft, coh=True)
 
         # Get time from shorter vector
         dims_list, coords_dict = self._new_coords(veldat2)
@@ -774,7 +774,7 @@ class VelBinner(TimeBinner):
             out[slc] = phase_angle(dat1[slc], dat2[slc], n_fft,
                                    window=window)
 
-        freq = self.calc_freq(self.fs, units='Hz', coh=True)
+        freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft, coh=True)
 
         # Get time from shorter vector
         dims_list, coords_dict = self._new_coords(veldat2)
-- 
2.43.0


From 8ea1f39ec1826156cb5e0d0b8ebebe1d50cff416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 49/95] fix: coherence, phase and covariances: use the n_bin
 given for the data and the times, and the array's own time

---
 dolfyn/binned.py   |  4 ++--
 dolfyn/velocity.py | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index b2d9c3b..5708d23 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -141,7 +141,7 @@ class TimeBinner:
                 o_attrs[ky] = props[ky]
         return out_ds
 
-    def _new_coords(self, array):
+    def _new_coords(self, array, n_bin=None):
         """Function for setting up a new xarray.DataArray regardless of how 
         many dimensions the input data-array has
         """
@@ -154,7 +154,7 @@ class TimeBinner:
         for ky in dims:
             dims_list.append(ky)
             if 'time' in ky:
-                coords_dict[ky] = self.mean(array.time.values)
+                coords_dict[ky] = self.mean(array[ky].values, n_bin=n_bin)
             else:
                 coords_dict[ky] = array.coords[ky].values
 
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 8c38952..ce83226 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -701,7 +701,7 @@ class VelBinner(TimeBinner):
         freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft, coh=True)
 
         # Get time from shorter vector
-        dims_list, coords_dict = self._new_coords(veldat2)
+        dims_list, coords_dict = self._new_coords(veldat2, n_bin=n_bin2)
         # tack on new coordinate
         dims_list.append('f')
         coords_dict['f'] = freq
@@ -777,7 +777,7 @@ class VelBinner(TimeBinner):
         freq = self.calc_freq(self.fs, units='Hz', n_fft=n_fft, coh=True)
 
         # Get time from shorter vector
-        dims_list, coords_dict = self._new_coords(veldat2)
+        dims_list, coords_dict = self._new_coords(veldat2, n_bin=n_bin2)
         # tack on new coordinate
         dims_list.append('f')
         coords_dict['f'] = freq
@@ -820,11 +820,11 @@ class VelBinner(TimeBinner):
         n_bin = self._parse_nbin(n_bin)
         out = np.empty(self._outshape(indat.shape, n_bin=n_bin)[:-1] +
                        [int(n_bin // 4)], dtype=indat.dtype)
-        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2)
+        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2, n_bin=n_bin)
         # Here we de-mean only on the 'valid' range:
         dt1 = dt1 - dt1[..., :, int(n_bin // 4):
                         int(-n_bin // 4)].mean(-1)[..., None]
-        dt2 = self.demean(indat)
+        dt2 = self.demean(indat, n_bin=n_bin)
         se = slice(int(n_bin // 4) - 1, None, 1)
         sb = slice(int(n_bin // 4) - 1, None, -1)
         for slc in slice1d_along_axis(dt1.shape, -1):
@@ -839,7 +839,7 @@ class VelBinner(TimeBinner):
                 # For the others we take the average of the two sides.
                 out[slc] = (tmp[se] + tmp[sb]) / 2
 
-        dims_list, coords_dict = self._new_coords(veldat)
+        dims_list, coords_dict = self._new_coords(veldat, n_bin=n_bin)
         # tack on new coordinate
         dims_list.append('lag')
         coords_dict['lag'] = np.arange(n_bin//4)
@@ -908,7 +908,7 @@ class VelBinner(TimeBinner):
                     self.std(dat2, n_bin=n_bin2)[..., :shp[-2]] *
                     n_bin2)[..., None]
 
-        dims_list, coords_dict = self._new_coords(veldat1)
+        dims_list, coords_dict = self._new_coords(veldat1, n_bin=n_bin1)
         # tack on new coordinate
         dims_list.append('dt')
         coords_dict['dt'] = np.arange(npt)
-- 
2.43.0


From 667298b5c86551cc4ed1f588c060235728e56e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 50/95] fix: calc_acov for bin sizes that are not multiples of
 4

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index ce83226..328e518 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -820,7 +820,7 @@ class VelBinner(TimeBinner):
         n_bin = self._parse_nbin(n_bin)
         out = np.empty(self._outshape(indat.shape, n_bin=n_bin)[:-1] +
                        [int(n_bin // 4)], dtype=indat.dtype)
-        dt1 = self.reshape(indat, n_pad=n_bin / 2 - 2, n_bin=n_bin)
+        dt1 = self.reshape(indat, n_pad=2 * int(n_bin // 4) - 2, n_bin=n_bin)
         # Here we de-mean only on the 'valid' range:
         dt1 = dt1 - dt1[..., :, int(n_bin // 4):
                         int(-n_bin // 4)].mean(-1)[..., None]
-- 
2.43.0


From e7603bbe69be62cc17422b4399c5dc7210d42d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 51/95] fix: calc_xcov: the lags are centered on 0

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index 328e518..e210171 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -911,7 +911,7 @@ class VelBinner(TimeBinner):
         dims_list, coords_dict = self._new_coords(veldat1, n_bin=n_bin1)
         # tack on new coordinate
         dims_list.append('dt')
-        coords_dict['dt'] = np.arange(npt)
+        coords_dict['dt'] = np.arange(npt) - (npt - 1) // 2
 
         da = xr.DataArray(out.astype('float32'),
                           coords=coords_dict,
-- 
2.43.0


From 7777ea5d1baad34b39f86098f69020a05101000b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 52/95] fix: calc_ti: no turbulence intensity below the
 velocity threshold

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index e210171..aa882d0 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -961,7 +961,7 @@ class VelBinner(TimeBinner):
                 coords[nm] = U_mag[nm].values
 
         return xr.DataArray(
-            ti.data.astype('float32'),
+            ti.filled(np.nan).astype('float32'),
             coords=coords,
             dims=dims,
             attrs={'units': '% [0,1]',
-- 
2.43.0


From 2dd8ea953ff893762f587f781e23f181b0131e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:10 +0000
Subject: [PATCH 53/95] fix: coherence: noise level of the spectra at fs=1

---
 dolfyn/tools/psd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 5ac4d4f..f9e224b 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -143,8 +143,8 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
     # fs=1 is ok because it comes out in the normalization.  (noise
     # normalization depends on this)
     out = ((np.abs(cross(a, b, nfft, 1, window=window)) ** 2) /
-           ((psd(a, nfft, 1, window=window, step=step1) - noise[0] ** 2 / np.pi) *
-            (psd(b, nfft, 1, window=window, step=step2) - noise[1] ** 2 / np.pi))
+           ((psd(a, nfft, 1, window=window, step=step1) - 2 * noise[0] ** 2) *
+            (psd(b, nfft, 1, window=window, step=step2) - 2 * noise[1] ** 2))
            )
     if debias:
         # This is from Benignus1969, it seems to work (make data with different
-- 
2.43.0


From 0adafff092b50ab08d78b1844d8d56cd0ac4aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 54/95] fix: spectra: average over the number of windows used,
 which can exceed the number planned

---
 dolfyn/tools/psd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index f9e224b..311bb51 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -227,12 +227,14 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
     wght = 2. / (window ** 2).sum()
     pwr = fft(detrend(a[0:nfft]) * window)[fft_inds] * \
         np.conj(fft(detrend(b[0:nfft]) * window)[fft_inds])
+    nwin = 1
     if nens - 1:
         for i1, i2 in zip(range(step[0], l[0] - nfft + 1, step[0]),
                           range(step[1], l[1] - nfft + 1, step[1])):
+            nwin += 1
             pwr += fft(detrend(a[i1:(i1 + nfft)]) * window)[fft_inds] * \
                 np.conj(fft(detrend(b[i2:(i2 + nfft)]) * window)[fft_inds])
-    pwr *= wght / nens / fs
+    pwr *= wght / nwin / fs
     return pwr
 
 
@@ -310,15 +312,17 @@ def cpsd(a, b, nfft, fs, window='hann', step=None):
         pwr = np.abs(s1) ** 2
     else:
         pwr = s1 * np.conj(fft(detrend(b[0:nfft]) * window)[fft_inds])
+    nwin = 1
     if nens - 1:
         for i in range(step, l - nfft + 1, step):
+            nwin += 1
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
             if auto_psd:
                 pwr += np.abs(s1) ** 2
             else:
                 pwr += s1 * \
                     np.conj(fft(detrend(b[i:(i + nfft)]) * window)[fft_inds])
-    pwr *= wght / nens / fs
+    pwr *= wght / nwin / fs
     return pwr
 
 
-- 
2.43.0


From b123828034df790feeca9e5722653cc60b2e3c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:32 +0000
Subject: [PATCH 55/95] fix: cpsd_quasisync: conjugate the cross-spectrum when
 the signals are swapped

---
 dolfyn/tools/psd.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 311bb51..a7e2d2e 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -216,8 +216,7 @@ def cpsd_quasisync(a, b, nfft, fs, window='hann'):
     if l[0] == l[1]:
         return cpsd(a, b, nfft, fs, window=window)
     elif l[0] > l[1]:
-        a, b = b, a
-        l = l[::-1]
+        return np.conj(cpsd_quasisync(b, a, nfft, fs, window=window))
     step = [0, 0]
     step[0], nens, nfft = stepsize(l[0], nfft)
     step[1], nens, nfft = stepsize(l[1], nfft, nens=nens)
-- 
2.43.0


From a5b60690fa0ea3413280955d32db09114bdc856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:57 +0000
Subject: [PATCH 56/95] fix: coherence: keep each noise level with its signal
 when the signals are swapped

---
 dolfyn/tools/psd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index a7e2d2e..4aebfff 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -125,6 +125,10 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
     and auto spectral densities of the signal `a` and `b`.
     """
 
+    if noise.__class__ not in [list, tuple, np.ndarray]:
+        noise = [noise, noise]
+    elif len(noise) == 1:
+        noise = [noise[0], noise[0]]
     l = [len(a), len(b)]
     cross = cpsd_quasisync
     if l[0] == l[1]:
@@ -132,12 +136,9 @@ def coherence(a, b, nfft, window='hann', debias=True, noise=(0, 0)):
     elif l[0] > l[1]:
         a, b = b, a
         l = l[::-1]
+        noise = noise[::-1]
     step1, nens, nfft = stepsize(l[0], nfft)
     step2, nens, nfft = stepsize(l[1], nfft, nens=nens)
-    if noise.__class__ not in [list, tuple, np.ndarray]:
-        noise = [noise, noise]
-    elif len(noise) == 1:
-        noise = [noise[0], noise[0]]
     if nens <= 2:
         raise Exception("Coherence must be computed from a set of ensembles.")
     # fs=1 is ok because it comes out in the normalization.  (noise
-- 
2.43.0


From 06b7f7a74436b616b686957ebde58f2cd00a38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:44 +0000
Subject: [PATCH 57/95] fix: phase_angle: average over the number of windows
 used

---
 dolfyn/tools/psd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/tools/psd.py b/dolfyn/tools/psd.py
index 4aebfff..f261d38 100644
--- a/dolfyn/tools/psd.py
+++ b/dolfyn/tools/psd.py
@@ -427,12 +427,14 @@ def phase_angle(a, b, nfft, window='hann', step=None):
     ang = s2 / s1
     l = len(a)
     step, nens, nfft = stepsize(l, nfft, step=step)
+    nwin = 1
     if nens - 1:
         for i in range(step, l - nfft + 1, step):
+            nwin += 1
             s1 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
             s1 /= np.abs(s1)
             s2 = fft(detrend(a[i:(i + nfft)]) * window)[fft_inds]
             s2 /= np.abs(s2)
             ang += s2 / s1
-    ang /= nens
+    ang /= nwin
     return ang
-- 
2.43.0


From 3f17d50dceb9cf05f356efac4571f8742115292c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 58/95] fix: group: segments of arrays that start inside one

---
 dolfyn/tools/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index c5cf520..6aa2abe 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -93,7 +93,7 @@ def group(bl, min_length=0):
         if len(ups) == 0:
             ups = np.array([0])
         else:
-            ups = np.concatenate((np.array([0]), [len(ups)]))
+            ups = np.concatenate(([0], ups))
     if bl[-1]:
         if len(dns) == 0:
             dns = np.array([len(bl)])
-- 
2.43.0


From d04d44075633a030501233321438e67f5357d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 59/95] fix: convert_degrees of a single number

---
 dolfyn/tools/misc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index 6aa2abe..fca2ea6 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -348,5 +348,8 @@ def convert_degrees(deg, tidal_mode=True):
     """
     out = -(deg - 90) % 360
     if tidal_mode:
-        out[out > 180] -= 360
+        if np.ndim(out) == 0:
+            out = out - 360 if out > 180 else out
+        else:
+            out[out > 180] -= 360
     return out
-- 
2.43.0


From f92d52259940953676128a3bbd0ee8c11dbbee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 60/95] fix: fillgaps, interpgaps: return the filled array for
 any number of dimensions

---
 dolfyn/tools/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/tools/misc.py b/dolfyn/tools/misc.py
index fca2ea6..5011eaa 100644
--- a/dolfyn/tools/misc.py
+++ b/dolfyn/tools/misc.py
@@ -188,7 +188,7 @@ def fillgaps(a, maxgap=np.inf, dim=0, extrapFlg=False):
     if a.ndim > 1:
         for inds in slice1d_along_axis(a.shape, dim):
             fillgaps(a[inds], maxgap, 0, extrapFlg)
-        return
+        return a
 
     a = np.asarray(a)
     nd = a.ndim
@@ -252,7 +252,7 @@ def interpgaps(a, t, maxgap=np.inf, dim=0, extrapFlg=False):
     if a.ndim > 1:
         for inds in slice1d_along_axis(a.shape, dim):
             interpgaps(a[inds], t, maxgap, 0, extrapFlg)
-        return
+        return a
 
     gd = _find(~np.isnan(a))
 
-- 
2.43.0


From f2c061e72f89fc43902daef82cc227de0f429e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 61/95] fix: velds.tke is missing, not 0, where the variances
 are missing

---
 dolfyn/velocity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index aa882d0..de73bfe 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -403,7 +403,7 @@ class Velocity():
     def tke(self,):
         """Turbulent kinetic energy (sum of the three components)
         """
-        tke = self.ds['tke_vec'].sum('tke') / 2
+        tke = self.ds['tke_vec'].sum('tke', skipna=False) / 2
         tke.name = 'TKE'
         tke.attrs['units'] = self.ds['tke_vec'].units
         tke.attrs['long_name'] = 'TKE'
-- 
2.43.0


From 6b3cd546fe70c2788613aba1739467639cbfd82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 62/95] fix: velds.E_coh of stress profiles

---
 dolfyn/velocity.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index de73bfe..eabc700 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -363,8 +363,6 @@ class Velocity():
 
         return xr.DataArray(
             E_coh.astype('float32'),
-            coords={'time': self.ds['stress_vec'].time},
-            dims=['time'],
             attrs={'units': self.ds['stress_vec'].units,
                    'long_name': 'Coherent Turbulence Energy'})
 
-- 
2.43.0


From 611b1564af97d03d3d73c24163ec35511bf4b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 63/95] fix: ADVBinner() removed the configuration from, and
 added its own settings to, the attributes of the raw dataset

---
 dolfyn/adv/turbulence.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 2ce78b4..e98f95f 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -39,10 +39,8 @@ class ADVBinner(VelBinner):
                                    window=window,
                                    freq_units=freq_units,
                                    noise=noise)
-        for key in list(ds.attrs.keys()):
-            if 'config' in key:
-                ds.attrs.pop(key)
-        out.attrs = ds.attrs
+        out.attrs = {key: val for key, val in ds.attrs.items()
+                     if 'config' not in key}
         out.attrs['n_bin'] = self.n_bin
         out.attrs['n_fft'] = self.n_fft
         out.attrs['n_fft_coh'] = self.n_fft_coh
-- 
2.43.0


From 15a0a6d40065b6e245c6c0a2914409384cc819ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 64/95] fix: calc_epsilon_LT83 could not be used with one
 velocity component, nor with noise given as a number or list

---
 dolfyn/adv/turbulence.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index e98f95f..6d53946 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -349,11 +349,16 @@ class ADVBinner(VelBinner):
             raise ValueError("`freq_range` must be an iterable of length 2.")
 
         if noise is not None:
-            if np.shape(noise)[0] != 3:
+            if np.size(noise) > 1 and np.shape(noise)[0] != psd.shape[0]:
                 raise Exception(
                     'Noise should have same first dimension as velocity')
+            if not isinstance(noise, xr.DataArray):
+                # add dimensions to the array's end
+                noise = np.asarray(noise)
+                while noise.ndim and noise.ndim < psd.ndim:
+                    noise = noise[..., None]
         else:
-            noise = np.array([0, 0, 0])[:, None, None]
+            noise = np.array(0)
 
         # Noise subtraction from binner.TimeBinner.calc_psd_base
         psd = psd.copy()
-- 
2.43.0


From 7233d02e5b50f17701bdbb495d4b46051baf3802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 65/95] fix: calc_epsilon_TE01 ignored that the spectra may be
 in Hz

---
 dolfyn/adv/turbulence.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 6d53946..3cafc1d 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -522,6 +522,9 @@ class ADVBinner(VelBinner):
         psd = dat_avg.psd[..., inds].values
         freq = freq[inds].reshape([1] * (dat_avg.psd.ndim - 2) + [sum(inds)])
 
+        if dat_avg['psd'].freq.attrs.get('units') == 'Hz':
+            U_mag = U_mag / (2 * np.pi)
+
         # Estimate values
         # u & v components (equation 6)
         out = (np.nanmean((psd[0] + psd[1]) * freq**(5/3), -1) /
-- 
2.43.0


From 8e3a22f2473252027977fc90de2a6d70ccb5fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 66/95] fix: calc_dudz of a downward-looking ADCP raised
 ValueError

---
 dolfyn/adp/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 5ff46e0..775e1b2 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -99,8 +99,8 @@ class ADPBinner(VelBinner):
         if orientation == 'down':
             sign *= -1
 
-        dudz, rng = sign*self._diff_func(vel, 0)
-        return xr.DataArray(dudz,
+        dudz, rng = self._diff_func(vel, 0)
+        return xr.DataArray(sign * dudz,
                             coords=[rng, vel.time],
                             dims=['range', 'time'],
                             attrs={'units': 's-1',
-- 
2.43.0


From 9e77e2f816ca5a4d3cf73ed22e6c38fd3d46c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 67/95] fix: calc_dissipation_LT83 could not be used with noise
 given as a number or array

---
 dolfyn/adp/turbulence.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 775e1b2..cd1a033 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -636,9 +636,13 @@ class ADPBinner(VelBinner):
         if not hasattr(freq_range, "__iter__") or len(freq_range) != 2:
             raise ValueError("`freq_range` must be an iterable of length 2.")
         if noise is not None:
-            if np.shape(noise)[0] != np.shape(psd)[0]:
+            if np.size(noise) > 1 and np.shape(noise)[0] != np.shape(psd)[0]:
                 raise Exception(
                     'Noise should have same first dimension as PSD')
+            if not isinstance(noise, xr.DataArray):
+                noise = np.asarray(noise)
+                if noise.size > 1:
+                    noise = noise.reshape(-1, 1)
         else:
             noise = np.array(0)
 
-- 
2.43.0


From 237cb10f56a8ad619786f02e6af906bb5550aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 68/95] fix: calc_dissipation_LT83 subtracted a noise level in
 Hz from spectra in rad/s

---
 dolfyn/adp/turbulence.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index cd1a033..ef44840 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -649,7 +649,10 @@ class ADPBinner(VelBinner):
         # Noise subtraction from binner.TimeBinner.calc_psd_base
         psd = psd.copy()
         if noise is not None:
-            psd -= noise**2 / (self.fs / 2)
+            if psd.freq.units == 'Hz':
+                psd -= noise**2 / (self.fs / 2)
+            else:
+                psd -= noise**2 / (np.pi * self.fs)
             psd = psd.where(psd > 0, np.min(np.abs(psd)) / 100)
 
         freq = psd.freq
-- 
2.43.0


From 75ebbdf40e926e5c1b5be1bfc103acddb61a9654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 69/95] fix: calc_dissipation_SF put structure functions at the
 wrong separation for some bin sizes

---
 dolfyn/adp/turbulence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index ef44840..f4965c0 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -748,7 +748,7 @@ class ADPBinner(VelBinner):
         n = np.empty(bm.shape[:2], dtype='float32')*np.nan
 
         bin_size = round(np.diff(rng)[0], 3)
-        R = int(r_range[0]/bin_size)
+        R = int(round(r_range[0]/bin_size, 6))
         r = np.arange(bin_size, r_range[1]+bin_size, bin_size)
 
         # D(z,r,time)
@@ -756,7 +756,7 @@ class ADPBinner(VelBinner):
         for r_value in r:
             # the i in d is the index based on r and bin size
             # bin size index, > 1
-            i = int(r_value/bin_size)
+            i = int(round(r_value/bin_size))
             for idx in range(bm.shape[1]):  # for each ensemble
                 # subtract the variance of adjacent depth cells
                 d = np.nanmean(
-- 
2.43.0


From 77cf243c1927e4aaad511b61635cab49fad70625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 70/95] fix: the beam_angle argument of calc_stress_4beam and
 calc_stress_5beam was ignored

---
 dolfyn/adp/turbulence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index f4965c0..4398467 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -251,7 +251,9 @@ class ADPBinner(VelBinner):
         """List of error and warnings to run through for ADCP stress calculations.
         """
         # Error 1. Beam Angle
-        b_angle = getattr(ds, 'beam_angle', beam_angle)
+        b_angle = beam_angle
+        if b_angle is None:
+            b_angle = getattr(ds, 'beam_angle', None)
         if b_angle is None:
             raise Exception(
                 "    Beam angle not found in dataset and no beam angle supplied.")
-- 
2.43.0


From afd76d1c472481a8c3dac761f47ce2adea744b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:44 +0000
Subject: [PATCH 71/95] fix: calc_stress_5beam left the caller's dataset in the
 instrument frame

---
 dolfyn/adp/turbulence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 4398467..514fe1d 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -4,6 +4,7 @@ import warnings
 
 from ..velocity import VelBinner
 from ..rotate.base import calc_tilt
+from ..rotate.api import rotate2
 
 
 def _diffz_first(dat, z):
@@ -500,8 +501,8 @@ class ADPBinner(VelBinner):
 
         else:
             # Guerra Thomson calculate u'v' bar from from the covariance of u' and v'
-            ds.velds.rotate2('inst')
-            vel = self.detrend(ds.vel.values)
+            ds_inst = rotate2(ds, 'inst', inplace=False)
+            vel = self.detrend(ds_inst.vel.values)
             upvp_ = np.nanmean(vel[0] * vel[1], axis=-1,
                                dtype=np.float64).astype(np.float32)
 
-- 
2.43.0


From 3811165603cbaa0fd29358a59c5aaf3e50143bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:26 +0000
Subject: [PATCH 72/95] fix: calc_stress_4beam returned v'w' of TRDI
 instruments with the opposite sign

---
 dolfyn/adp/turbulence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index 514fe1d..ac6c17d 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -306,9 +306,10 @@ class ADPBinner(VelBinner):
             phi3 = np.deg2rad(self.mean(ds['roll'].values))
             if 'down' in orientation.lower():
                 # this order is correct given the note above
-                beams = [0, 1, 2, 3]  # for down-facing RDIs
+                beams = [0, 1, 3, 2]  # for down-facing RDIs
             elif 'up' in orientation.lower():
-                beams = [0, 1, 3, 2]  # for up-facing RDIs
+                # x and z change sign (180 degrees are added to the roll)
+                beams = [0, 1, 2, 3]  # for up-facing RDIs
             else:
                 raise Exception(
                     "Please provide instrument orientation ['up' or 'down']")
-- 
2.43.0


From 86e0751a1989afe227795857eb0872ecb89faa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 73/95] fix: clean_fill wrote missing values and interpolated
 ones into the caller's data

---
 dolfyn/adv/clean.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolfyn/adv/clean.py b/dolfyn/adv/clean.py
index dacb9f7..e28c656 100644
--- a/dolfyn/adv/clean.py
+++ b/dolfyn/adv/clean.py
@@ -40,6 +40,7 @@ def clean_fill(u, mask, npt=12, method='cubic', maxgap=6):
     """
 
     # Apply mask
+    u = u.copy(deep=True)
     u.values[..., mask] = np.nan
 
     # Remove bad data for 2D+ and 1D timeseries variables
-- 
2.43.0


From 643a8b296f972c80897ed30bc0fec6afb6ba63d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 74/95] fix: GN2002 found no spike in a stretch that holds a
 missing sample

---
 dolfyn/adv/clean.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dolfyn/adv/clean.py b/dolfyn/adv/clean.py
index e28c656..dd590c2 100644
--- a/dolfyn/adv/clean.py
+++ b/dolfyn/adv/clean.py
@@ -243,7 +243,7 @@ def _phaseSpaceThresh(u):
         u = u[:, None]
     u = np.array(u)
     Lu = (2 * np.log(u.shape[0])) ** 0.5
-    u = u - u.mean(0)
+    u = u - np.nanmean(u, axis=0)
     du = np.zeros_like(u)
     d2u = np.zeros_like(u)
     # Take the centered difference.
@@ -251,10 +251,10 @@ def _phaseSpaceThresh(u):
     # And again.
     d2u[2:-2] = (du[1:-1][2:] - du[1:-1][:-2]) / 2
     p = (u ** 2 + du ** 2 + d2u ** 2)
-    std_u = np.std(u, axis=0)
-    std_du = np.std(du, axis=0)
-    std_d2u = np.std(d2u, axis=0)
-    alpha = np.arctan2(np.sum(u * d2u, axis=0), np.sum(u ** 2, axis=0))
+    std_u = np.nanstd(u, axis=0)
+    std_du = np.nanstd(du, axis=0)
+    std_d2u = np.nanstd(d2u, axis=0)
+    alpha = np.arctan2(np.nansum(u * d2u, axis=0), np.nansum(u ** 2, axis=0))
     a = np.empty_like(alpha)
     b = np.empty_like(alpha)
     with warnings.catch_warnings() as w:
@@ -269,7 +269,7 @@ def _phaseSpaceThresh(u):
               ((sin(phi) * cos(theta) * sin(alpha) -
                 cos(phi) * cos(alpha)) ** 2) / b +
               ((sin(phi) * sin(theta)) ** 2) / (Lu * std_du) ** 2) ** -1
-    pe[:, np.isnan(pe[0, :])] = 0
+    pe[:, np.isnan(pe).all(axis=0)] = 0
     return (p > pe).flatten('F')
 
 
-- 
2.43.0


From 26dacd8585d6442a8effbc1804c056aaf6ef7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 75/95] fix: find_surface could not handle more than 256 cells

---
 dolfyn/adp/clean.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index 939aa22..cf6517e 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -76,8 +76,7 @@ def find_surface(ds, thresh=10, nfilt=None):
     # the echo profile
     edf = np.diff(ds.amp.values.astype(np.int16), axis=1)
     inds2 = np.max((edf < 0) *
-                   np.arange(ds.vel.shape[1] - 1,
-                             dtype=np.uint8)[None, :, None], axis=1) + 1
+                   np.arange(ds.vel.shape[1] - 1)[None, :, None], axis=1) + 1
 
     # Calculate the depth of these quantities
     d1 = ds.range.values[inds]
-- 
2.43.0


From 5521114ad3f0aa92ed7a344ad618d6a5a7156fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 76/95] fix: fill_nan_ensemble_mean failed when the sampling
 rate is a float

---
 dolfyn/adv/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adv/clean.py b/dolfyn/adv/clean.py
index dd590c2..db12bcc 100644
--- a/dolfyn/adv/clean.py
+++ b/dolfyn/adv/clean.py
@@ -168,7 +168,7 @@ def fill_nan_ensemble_mean(u, mask, fs, window):
 
     # Create a matrix the same size as the reshaped array, and mask out the
     # non-missing values. Then add the two matrices together.
-    vel_mean_matrix = np.tile(vel_mean[..., None], (1, 1, bnr.n_bin))
+    vel_mean_matrix = np.tile(vel_mean[..., None], (1, 1, int(bnr.n_bin)))
     vel_missing = np.isnan(vel_reshaped)
     vel_mask = np.ma.masked_array(vel_mean_matrix, ~vel_missing).filled(np.nan)
     vel_filled = np.where(np.isnan(vel_reshaped), vel_mask,
-- 
2.43.0


From 01623416a5eee44b8a5553e5905a65263002d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:04 +0000
Subject: [PATCH 77/95] fix: fill_nan_ensemble_mean failed on 2-D data with a
 single row

---
 dolfyn/adv/clean.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adv/clean.py b/dolfyn/adv/clean.py
index db12bcc..cc5a190 100644
--- a/dolfyn/adv/clean.py
+++ b/dolfyn/adv/clean.py
@@ -178,9 +178,9 @@ def fill_nan_ensemble_mean(u, mask, fs, window):
         vel[i] = np.ravel(vel_filled[i], 'C')
 
     if diff:  # Trim off the extra means
-        u.values = np.squeeze(vel[:, :-extra_nans])
+        u.values = vel[:, :-extra_nans].reshape(u.shape)
     else:
-        u.values = np.squeeze(vel)
+        u.values = vel.reshape(u.shape)
 
     return u
 
-- 
2.43.0


From ba5909013aba26dd30d4feaf5fab0212adedfef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:04 +0000
Subject: [PATCH 78/95] fix: nan_beyond_surface trimmed the vertical beam at
 the slanted beams' cells

---
 dolfyn/adp/clean.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index cf6517e..36e31fb 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -219,12 +219,9 @@ def nan_beyond_surface(ds, val=np.nan, beam_angle=None, inplace=False):
 
     # Surface interference distance calculated from distance of transducers to surface
     if hasattr(ds, 'h_deploy'):
-        range_limit = ((ds.depth-ds.h_deploy) * np.cos(beam_angle) -
-                       ds.cell_size) + ds.h_deploy
+        range_limit = (ds.depth-ds.h_deploy) * np.cos(beam_angle) + ds.h_deploy
     else:
-        range_limit = ds.depth * np.cos(beam_angle) - ds.cell_size
-
-    bds = ds.range > range_limit
+        range_limit = ds.depth * np.cos(beam_angle)
 
     # Echosounder data needs only be trimmed at water surface
     if 'echo' in var:
@@ -234,6 +231,10 @@ def nan_beyond_surface(ds, val=np.nan, beam_angle=None, inplace=False):
 
     # Correct rest of "range" data for surface interference
     for nm in var:
+        # The vertical beam has its own cells
+        rng = [s for s in ds[nm].dims if 'range' in s][0]
+        cell_size = ds.attrs.get(rng.replace('range', 'cell_size'), ds.cell_size)
+        bds = ds[rng] > range_limit - cell_size
         a = ds[nm].values
         try:  # float dtype
             a[..., bds] = val
-- 
2.43.0


From d381ece1ae90556ec6cedde2ed31f17bf60359fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:04 +0000
Subject: [PATCH 79/95] fix: medfilt_orient dropped the declination from the
 orientation matrix

---
 dolfyn/adp/clean.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dolfyn/adp/clean.py b/dolfyn/adp/clean.py
index 36e31fb..63f5e71 100644
--- a/dolfyn/adp/clean.py
+++ b/dolfyn/adp/clean.py
@@ -333,6 +333,13 @@ def medfilt_orient(ds, nfilt=7):
         ds.quaternions.values = q_filt
 
         ds['orientmat'] = quaternion2orient(ds.quaternions)
+        if 'declination' in ds.attrs:
+            # The quaternions are relative to magnetic north
+            cd = np.cos(-np.deg2rad(ds.declination))
+            sd = np.sin(-np.deg2rad(ds.declination))
+            Rdec = np.array([[cd, -sd, 0], [sd, cd, 0], [0, 0, 1]])
+            ds['orientmat'].values = np.einsum('kj...,ij->ki...',
+                                               ds['orientmat'].values, Rdec)
         return ds
 
     else:
-- 
2.43.0


From 286649adbae72ad76fe575eccfce51c75d0fa679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:05 +0000
Subject: [PATCH 80/95] fix: calc_dissipation_SF failed when r_range reaches
 beyond the profile

---
 dolfyn/adp/turbulence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index ac6c17d..d582a72 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -767,7 +767,7 @@ class ADPBinner(VelBinner):
                     (bm[:-i, idx, :] - bm[i:, idx, :]) ** 2, axis=-1)
 
                 # have to insert 0/nan in first bin to match length
-                spaces = np.empty((i,))
+                spaces = np.empty((min(i, bm.shape[0]),))
                 spaces[:] = np.NaN
                 D[:, i-1, idx] = np.concatenate((spaces, d))
 
-- 
2.43.0


From f98bc1d66ae8b8091c176945765f37172d09768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:52 +0000
Subject: [PATCH 81/95] fix: n_cells_echo was wrong for echosounder records of
 more than 1023 cells

---
 dolfyn/io/nortek2.py     | 2 +-
 dolfyn/io/nortek2_lib.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index 71994d0..a1c0283 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -476,7 +476,7 @@ def _reorg(dat):
             dnow['usec100'].astype('uint32') * 100)
         tmp = lib._beams_cy_int2dict(
             lib._collapse(dnow['beam_config'], exclude=collapse_exclude,
-                          name='beam_config'), 21)  # always 21 here
+                          name='beam_config'), 28 if id == 28 else 21)
         cfg['n_cells' + tag] = tmp['n_cells']
         cfg['coord_sys_axes' + tag] = tmp['cy']
         cfg['n_beams' + tag] = tmp['n_beams']
diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index 0450daa..bb74e15 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -456,7 +456,8 @@ def _beams_cy_int2dict(val, id):
     """Convert the beams/coordinate-system bytes to a dict of values.
     """
     if id == 28:  # 0x1C (echosounder)
-        return dict(n_cells=val)
+        # All 16 bits count the cells
+        return dict(n_cells=val, cy=None, n_beams=0)
     elif id in [26, 31]:
         return dict(n_cells=val & (2**10 - 1), cy="beam", n_beams=1)
     return dict(
-- 
2.43.0


From b2b3d4ca349bc9614bcd8bf587a297d19b67cebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:31 +0000
Subject: [PATCH 82/95] fix: bottom-track ranges of WinRiver 1 files were read
 from the wrong bytes

After the fix quality the reader stepped 7 bytes back instead of 5 forward, so
the high byte of the ranges came from the position bytes and the following
blocks were read from the wrong place.
---
 dolfyn/io/rdi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/rdi.py b/dolfyn/io/rdi.py
index 2c28a2b..26aa509 100644
--- a/dolfyn/io/rdi.py
+++ b/dolfyn/io/rdi.py
@@ -1041,7 +1041,7 @@ class _RDIReader():
                                                        ens.longitude_gps[k]))
                 ens.latitude_gps[k] = np.NaN
                 ens.longitude_gps[k] = np.NaN
-            fd.seek(71 - 45 - 16 - 17, 1)
+            fd.seek(71 - 45 - 21, 1)
             self._nbyte = 2 + 68
         else:
             # Skip reference layer data
-- 
2.43.0


From d08140f3fe674c816850f6dbfcd2204e09661ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:49 +0000
Subject: [PATCH 83/95] fix: averaged files with some raw-altimeter records
 could not be read

Without burst velocity the time axis was copied from whichever time came last,
which is that of the raw-altimeter records when there are any.
---
 dolfyn/io/nortek2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index a1c0283..b9b041d 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -662,7 +662,7 @@ def _reduce(data):
     # If burst velocity isn't used, need to copy one for 'time'
     if 'time' not in dc:
         for val in dc:
-            if 'time' in val:
+            if 'time' in val and 'altraw' not in val:
                 time = val
         dc['time'] = dc[time]
 
-- 
2.43.0


From bab54540d02cd6c587ce89e07396446554009f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:13 +0000
Subject: [PATCH 84/95] fix: raw-altimeter records of dual-profile files kept
 the ensemble number from before skips were counted

They were numbered by their neighbours before the neighbours got their final
numbers, so the last one could end up in an ensemble of its own and be lost.
---
 dolfyn/io/nortek2_lib.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index bb74e15..aaad417 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -179,16 +179,8 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
         warnings.warn("Dual Profile detected... Two datasets will be returned.")
         dp = True
 
-    # Raw altimeter records may be recorded infrequently, so counting them
-    # doesn't number them: they belong to the profile they are next to
     israw = np.isin(idx['ID'], [26, 31])
     prof = np.nonzero(~israw)[0]
-    if len(prof):
-        for i in np.nonzero(israw)[0]:
-            k = np.searchsorted(prof, i)
-            near = prof[max(k - 1, 0):k + 1]
-            same = near[idx['hw_ens'][near] == idx['hw_ens'][i]]
-            ens[i] = ens[same[0] if len(same) else near[0]]
 
     # This loop fixes 'skips' inside the file
     for id in np.setdiff1d(uid, [26, 31]) if len(prof) else uid:
@@ -216,6 +208,15 @@ def _check_index(idx, infile, fix_hw_ens=False, dp=False):
             hwe[inds[(ib + 1):]] += 1
             ens[inds[(ib + 1):]] += 1
 
+    # Raw altimeter records may be recorded infrequently, so counting them
+    # doesn't number them: they belong to the profile they are next to
+    if len(prof):
+        for i in np.nonzero(israw)[0]:
+            k = np.searchsorted(prof, i)
+            near = prof[max(k - 1, 0):k + 1]
+            same = near[idx['hw_ens'][near] == idx['hw_ens'][i]]
+            ens[i] = ens[same[0] if len(same) else near[0]]
+
     # if not dp:
     #     # This block fixes skips that originate from before this file.
     #     # Check first N id's and correct
-- 
2.43.0


From 1c563fd0796327a0a10ea0ce2cf3470756e17517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:45 +0000
Subject: [PATCH 85/95] fix: a refused inst2head_rotmat was left in the
 dataset, which could not be rotated any more

---
 dolfyn/rotate/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/rotate/api.py b/dolfyn/rotate/api.py
index 5847b68..39eaa23 100644
--- a/dolfyn/rotate/api.py
+++ b/dolfyn/rotate/api.py
@@ -2,7 +2,7 @@ from . import vector as r_vec
 from . import awac as r_awac
 from . import signature as r_sig
 from . import rdi as r_rdi
-from .base import _make_model
+from .base import _make_model, _check_rotmat_det
 import numpy as np
 import xarray as xr
 import warnings
@@ -299,6 +299,8 @@ def set_inst2head_rotmat(ds, rotmat, inplace=True):
         raise Exception(
             "You are setting 'inst2head_rotmat' after it has already "
             "been set. You can only set it once.")
+    if not _check_rotmat_det(np.array(rotmat)):
+        raise ValueError("Invalid inst2head_rotmat (determinant != 1).")
 
     csin = ds.coord_sys
     if csin not in ['inst', 'beam']:
-- 
2.43.0


From 8cf753523b2ea91817997a4e87f5978d60f1edf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:52 +0000
Subject: [PATCH 86/95] fix: a missing time stamp (NaT) became a date in 1677,
 and took the averages and MATLAB files it is in along

---
 dolfyn/time.py     | 24 ++++++++++++++++--------
 dolfyn/velocity.py |  2 +-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/dolfyn/time.py b/dolfyn/time.py
index 8983b46..fc8d796 100644
--- a/dolfyn/time.py
+++ b/dolfyn/time.py
@@ -46,7 +46,9 @@ def dt642epoch(dt64):
       Epoch time (seconds since 1/1/1970 00:00:00)
     """
 
-    return dt64.astype('datetime64[ns]').astype('float') / 1e9
+    dt64 = dt64.astype('datetime64[ns]')
+    # A missing time (NaT) is not a number
+    return dt64.astype('float') / 1e9 + np.where(np.isnat(dt64), np.nan, 0)
 
 
 def date2dt64(dt):
@@ -125,11 +127,10 @@ def epoch2date(ep_time, offset_hr=0, to_str=False):
     # Long story short: `fromtimestamp` used system-specific timezone
     # info to calculate the datetime object, but returns a
     # timezone-agnostic object.
-    if offset_hr != 0:
-        delta = timedelta(hours=offset_hr)
-        time = [datetime.utcfromtimestamp(t) + delta for t in ep_time]
-    else:
-        time = [datetime.utcfromtimestamp(t) for t in ep_time]
+    # A missing time is None
+    delta = timedelta(hours=offset_hr)
+    time = [None if np.isnan(t) else datetime.utcfromtimestamp(t) + delta
+            for t in ep_time]
 
     if to_str:
         time = date2str(time)
@@ -160,7 +161,7 @@ def date2str(dt, format_str=None):
     if not isinstance(dt, list):
         dt = [dt]
 
-    return [t.strftime(format_str) for t in dt]
+    return ['NaT' if t is None else t.strftime(format_str) for t in dt]
 
 
 def date2epoch(dt):
@@ -180,7 +181,8 @@ def date2epoch(dt):
     if not isinstance(dt, list):
         dt = [dt]
 
-    return [t.replace(tzinfo=timezone.utc).timestamp() for t in dt]
+    return [np.nan if t is None else
+            t.replace(tzinfo=timezone.utc).timestamp() for t in dt]
 
 
 def date2matlab(dt):
@@ -199,6 +201,9 @@ def date2matlab(dt):
 
     time = list()
     for i in range(len(dt)):
+        if dt[i] is None:
+            time.append(np.nan)
+            continue
         mdn = dt[i] + timedelta(days=366)
         frac_seconds = (dt[i]-datetime(dt[i].year, dt[i].month,
                         dt[i].day, 0, 0, 0)).seconds / (24*60*60)
@@ -224,6 +229,9 @@ def matlab2date(matlab_dn):
 
     time = list()
     for i in range(len(matlab_dn)):
+        if np.isnan(matlab_dn[i]):
+            time.append(None)
+            continue
         day = datetime.fromordinal(int(matlab_dn[i]))
         dayfrac = timedelta(days=matlab_dn[i] % 1) - timedelta(days=366)
         time.append(day + dayfrac)
diff --git a/dolfyn/velocity.py b/dolfyn/velocity.py
index eabc700..c6843fd 100644
--- a/dolfyn/velocity.py
+++ b/dolfyn/velocity.py
@@ -168,7 +168,7 @@ class Velocity():
 
     def __repr__(self, ):
         time_string = '{:.2f} {} (started: {})'
-        if ('time' not in self or dt642epoch(self['time'][0]) < 1):
+        if ('time' not in self or not dt642epoch(self['time'][0]) >= 1):
             time_string = '-->No Time Information!<--'
         else:
             tm = self['time'][[0, -1]].values
-- 
2.43.0


From 4b5780c69f5c80dd41ecee2e98e25ea182f0c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:00 +0000
Subject: [PATCH 87/95] fix: binary2mat.py took one file only, and cut letters
 off its name

---
 scripts/binary2mat.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/binary2mat.py b/scripts/binary2mat.py
index 1c66f3d..6c57b75 100644
--- a/scripts/binary2mat.py
+++ b/scripts/binary2mat.py
@@ -1,5 +1,6 @@
 #!/usr/bin/python
 import argparse
+import os
 from dolfyn import read, save_mat
 
 parser = argparse.ArgumentParser(
@@ -8,7 +9,7 @@ parser = argparse.ArgumentParser(
 
 parser.add_argument('files',
                     help="The filename(s) to convert.",
-                    action='append',
+                    nargs='+',
                     )
 
 args = parser.parse_args()
@@ -16,9 +17,7 @@ args = parser.parse_args()
 for fnm in args.files:
     dat = read(fnm)
 
-    if '.' in fnm:
-        ext = fnm[fnm.index('.'):]
-    outnm = fnm.rstrip(ext) + '.mat'
+    outnm = os.path.splitext(fnm)[0] + '.mat'
 
     print('Saving to %s.' % outnm)
     save_mat(dat, outnm, datenum=True)
-- 
2.43.0


From 7b3197babda79e8faa3300c3c550c6fc9f2250e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:00 +0000
Subject: [PATCH 88/95] fix: motcorrect_vector.py failed at the head geometry,
 at the times and with -f, and exchanged heading, pitch and roll

---
 scripts/motcorrect_vector.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/scripts/motcorrect_vector.py b/scripts/motcorrect_vector.py
index 7ae2929..9f63782 100755
--- a/scripts/motcorrect_vector.py
+++ b/scripts/motcorrect_vector.py
@@ -20,6 +20,7 @@ parser = argparse.ArgumentParser(
     """)
 parser.add_argument(
     '-f',
+    type=float,
     default=0.03333,
     help="""
     Specify the high-pass filter frequency that is applied to the
@@ -109,7 +110,7 @@ parser.add_argument(
     'filename',
     help="""The filename(s) of the the Nortek Vector file(s) to be
     processed(they probably end with '.vec').""",
-    action='append'
+    nargs='+'
 )
 
 args = parser.parse_args()
@@ -145,12 +146,12 @@ for fnm in args.filename:
     dat = avm.read(fnm)
 
     if rmat is not None:
-        dat.attrs['inst2head_rotmat'] = rmat
+        avm.set_inst2head_rotmat(dat, rmat)
     if vec is not None:
         dat.attrs['inst2head_vec'] = vec
     if declin is not None:
         dat.attrs['declination'] = declin
-    if ('inst2head_rotmat' not in dat.attrs or
+    if ('inst2head_rotmat' not in dat or
             'inst2head_vec' not in dat.attrs):
         raise Exception("inst2head_rotmat or inst2head_vec not found "
                         "in dat.attrs. These must be specified by either:\n"
@@ -163,7 +164,8 @@ for fnm in args.filename:
         # Perform the motion correction.
         dat = avm.correct_motion(dat, accel_filtfreq=args.f)
         # Compute pitch,roll,heading from orientmat.
-        dat['pitch'], dat['roll'], dat['heading'] = orient2euler(dat.orientmat)
+        for nm, ang in zip(('heading', 'pitch', 'roll'), orient2euler(dat)):
+            dat[nm].values = ang
     else:
         print("""
         !!!--Warning--!!!: Orientation matrix('orientmat')
@@ -171,17 +173,13 @@ for fnm in args.filename:
         """)
 
     if args.mat:
-        # Set matlab 'datenum' time.
-        dt = dolfyn.time.epoch2date(dat['time'])
-        dat['datenum'] = dolfyn.time.date2matlab(dt)
-
-        outnm = fnm.rstrip('.vec').rstrip('.VEC') + '.mat'
+        outnm = os.path.splitext(fnm)[0] + '.mat'
         print('Saving to %s.' % outnm)
-        # Save the data.
+        # Save the data (with matlab 'datenum' time).
         dolfyn.io.api.save_mat(dat, outnm)
 
     if args.nc:
-        outnm = fnm.rstrip('.vec').rstrip('.VEC') + '.nc'
+        outnm = os.path.splitext(fnm)[0] + '.nc'
         print('Saving to %s.' % outnm)
         # Save the data.
         dolfyn.save(dat, outnm)
-- 
2.43.0


From 7045331261618ab019e61b9d083d729fe493ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:06 +0000
Subject: [PATCH 89/95] fix: LT83 dissipation of a missing spectrum came out as
 a tiny rate instead of missing

---
 dolfyn/adp/turbulence.py | 3 ++-
 dolfyn/adv/turbulence.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dolfyn/adp/turbulence.py b/dolfyn/adp/turbulence.py
index d582a72..85aec96 100644
--- a/dolfyn/adp/turbulence.py
+++ b/dolfyn/adp/turbulence.py
@@ -657,7 +657,8 @@ class ADPBinner(VelBinner):
                 psd -= noise**2 / (self.fs / 2)
             else:
                 psd -= noise**2 / (np.pi * self.fs)
-            psd = psd.where(psd > 0, np.min(np.abs(psd)) / 100)
+            psd = psd.where((psd > 0) | psd.isnull(),
+                            np.min(np.abs(psd)) / 100)
 
         freq = psd.freq
         idx = np.where((freq_range[0] < freq) & (freq < freq_range[1]))
diff --git a/dolfyn/adv/turbulence.py b/dolfyn/adv/turbulence.py
index 3cafc1d..27cf080 100644
--- a/dolfyn/adv/turbulence.py
+++ b/dolfyn/adv/turbulence.py
@@ -364,7 +364,8 @@ class ADVBinner(VelBinner):
         psd = psd.copy()
         if noise is not None:
             psd -= (noise**2 / (self.fs / 2))
-            psd = psd.where(psd > 0, np.min(np.abs(psd)) / 100)
+            psd = psd.where((psd > 0) | psd.isnull(),
+                            np.min(np.abs(psd)) / 100)
 
         freq = psd.freq
         idx = np.where((freq_range[0] < freq) & (freq < freq_range[1]))
-- 
2.43.0


From a7fb8386b485b84ab580e6380fdfb32268c0663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:06 +0000
Subject: [PATCH 90/95] fix: one missing bin made the noise-reduced spectra of
 other bins missing where they are below the noise

---
 dolfyn/binned.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dolfyn/binned.py b/dolfyn/binned.py
index 5708d23..cc0288f 100644
--- a/dolfyn/binned.py
+++ b/dolfyn/binned.py
@@ -399,7 +399,9 @@ class TimeBinner:
         if np.any(noise):
             out -= noise**2 / (fs/2)
             # Make sure all values of the PSD are >0 (but still small):
-            out[out < 0] = np.min(np.abs(out)) / 100
+            neg = out < 0
+            if neg.any():
+                out[neg] = np.nanmin(np.abs(out)) / 100
         return out
 
     def calc_csd_base(self, dat1, dat2, fs=None, window='hann',
-- 
2.43.0


From 2928f29bba2b991306d1e16a038919ab801ea16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:31 +0000
Subject: [PATCH 91/95] fix: load_mat guessed the dimensions of a variable from
 its name and shape: derived and averaged variables were dropped, mislabelled
 or could not be loaded, and dimensions of one entry were lost

---
 dolfyn/io/api.py | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index b1a2ae3..65df968 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -319,18 +319,47 @@ def save_mat(ds, filename, datenum=True):
 
     # Save xarray structure with more descriptive structure names
     matfile = {'vars': {}, 'coords': {}, 'config': {},
-               'units': {}, 'long_name': {}, 'standard_name': {}}
+               'units': {}, 'long_name': {}, 'standard_name': {},
+               'dims': {}, 'sizes': dict(ds.sizes)}
     for ky in ds.data_vars:
         matfile['vars'][ky] = ds[ky].values
+        matfile['dims'][ky] = ' '.join(ds[ky].dims)
         copy_attrs(matfile, ds, ky)
     for ky in ds.coords:
         matfile['coords'][ky] = ds[ky].values
+        matfile['dims'][ky] = ' '.join(ds[ky].dims)
         copy_attrs(matfile, ds, ky)
     matfile['config'] = ds.attrs
 
     sio.savemat(filename, matfile)
 
 
+def _restore_dataset(data, dims, sizes):
+    """Creates the dataset with the dimensions recorded by `save_mat`
+    """
+    ds_dict = {}
+    for key, val in {**data['coords'], **data['data_vars']}.items():
+        dim = getattr(dims, key)
+        dim = dim.split() if isinstance(dim, str) else []
+        val = np.reshape(val, [getattr(sizes, d) for d in dim])
+        if val.dtype.kind == 'U':
+            val = np.char.strip(val)
+        ds_dict[key] = {"dims": dim, "data": val}
+        ds_dict[key]["attrs"] = {md: data[md][key] for md in ['units', 'long_name', 'standard_name']
+                                 if isinstance(data[md].get(key), str)}
+        if key in dim:
+            ds_dict[key]["attrs"]['coverage_content_type'] = 'coordinate'
+        elif len(dim) > 1:
+            ds_dict[key]["attrs"]['coverage_content_type'] = 'physicalMeasurement'
+
+    ds = xr.Dataset.from_dict(ds_dict).set_coords(list(data['coords']))
+    for key in {'dir', 'dirIMU'}.intersection(ds.coords):
+        ds[key].attrs['ref_frame'] = data['attrs']['coord_sys']
+    ds.attrs = data['attrs']
+
+    return ds
+
+
 def load_mat(filename, datenum=True):
     """Load xarray dataset from MATLAB (.mat) file, complimentary to `save_mat()`
 
@@ -370,8 +399,11 @@ def load_mat(filename, datenum=True):
     ds_dict['attrs'] = ds_dict.pop('config')
 
     # Recreate dataset
-    ds = _create_dataset(ds_dict)
-    ds = _set_coords(ds, ds.coord_sys)
+    if 'dims' in data:
+        ds = _restore_dataset(ds_dict, data['dims'], data['sizes'])
+    else:  # files saved without the dimensions of their variables
+        ds = _create_dataset(ds_dict)
+        ds = _set_coords(ds, ds.coord_sys)
 
     # Convert numpy arrays and strings back to lists
     for nm in ds.attrs:
-- 
2.43.0


From a328ad5af97989d5ee6a65c0fc2a924b6ec15b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:39 +0000
Subject: [PATCH 92/95] fix: load dropped the units and other attributes of
 complex variables

---
 dolfyn/io/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolfyn/io/api.py b/dolfyn/io/api.py
index 65df968..d8a33f0 100644
--- a/dolfyn/io/api.py
+++ b/dolfyn/io/api.py
@@ -253,6 +253,7 @@ def load(filename):
                 ds.attrs['complex_vars'] = [ds.complex_vars]
             for var in ds.complex_vars:
                 ds[var] = ds[var + '_real'] + ds[var + '_imag'] * 1j
+                ds[var].attrs = ds[var + '_real'].attrs
                 ds = ds.drop_vars([var + '_real', var + '_imag'])
 
         ds.attrs.pop('complex_vars')
-- 
2.43.0


From 984089d4168ab050de617a4408145b20eadd5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:46 +0000
Subject: [PATCH 93/95] fix: readers of one Signature file working at the same
 time shared one temporary index file: they failed, or left a mixed-up index

---
 dolfyn/io/nortek2_lib.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dolfyn/io/nortek2_lib.py b/dolfyn/io/nortek2_lib.py
index aaad417..4b14e24 100644
--- a/dolfyn/io/nortek2_lib.py
+++ b/dolfyn/io/nortek2_lib.py
@@ -1,4 +1,5 @@
 import os
+import threading
 import struct
 import os.path as path
 import numpy as np
@@ -99,8 +100,10 @@ def _create_index(infile, outfile, N_ens, debug):
     logging = getLogger()
     print("Indexing {}...".format(infile), end='')
     fin = open(_abspath(infile), 'rb')
-    # Only a complete index may appear under the final name
-    tmpfile = _abspath(outfile) + '.part'
+    # Only a complete index may appear under the final name, and no other
+    # reader of this file may be writing to the same place
+    tmpfile = '{}.{}-{}.part'.format(_abspath(outfile), os.getpid(),
+                                     threading.get_ident())
     fout = open(tmpfile, 'wb')
     fout.write(b'Index Ver:')
     fout.write(struct.pack('<H', _index_version))
-- 
2.43.0


From 0e17a01caca8fc2729edce72dd8c7dce833c7ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:46 +0000
Subject: [PATCH 94/95] fix: a second CalcMotion.calc_velacc integrated across
 the gaps between bursts

---
 dolfyn/adv/motion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dolfyn/adv/motion.py b/dolfyn/adv/motion.py
index 943e0bd..748c4df 100644
--- a/dolfyn/adv/motion.py
+++ b/dolfyn/adv/motion.py
@@ -156,6 +156,9 @@ class CalcMotion():
 
         # Get high-pass accelerations
         hp = self.accel - self.acclow
+        if n and hp.ndim == 2:
+            # An earlier call has put the bursts back into one record
+            hp = self.reshape(hp, n_bin=n)
 
         # Integrate in time to get velocities
         dat = np.concatenate((np.zeros(list(hp.shape[:-1]) + [1]),
-- 
2.43.0


From be630396e295e3d2ededce4044713de11b105f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:27 +0000
Subject: [PATCH 95/95] fix: a dual-profile Signature file whose averaged
 profile holds velocities only could not be read

---
 dolfyn/io/nortek2.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dolfyn/io/nortek2.py b/dolfyn/io/nortek2.py
index b9b041d..1a6540d 100644
--- a/dolfyn/io/nortek2.py
+++ b/dolfyn/io/nortek2.py
@@ -710,6 +710,7 @@ def split_dp_datasets(ds):
     ds2.attrs['rotate_vars'] = rotate_vars2
     # Set orientation matricies
     ds2['beam2inst_orientmat'] = ds['beam2inst_orientmat']
+    ds2 = ds2.assign_coords(beam=ds['beam'])
     tag = '_' + other_tags[0]
     if 'orientmat' + tag in ds2:
         ds2 = ds2.rename({'orientmat' + tag: 'orientmat'})
-- 
2.43.0

