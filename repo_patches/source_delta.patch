From 13c54d68de1165c689b6ca13e122c90448f0eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 01/93] fix: Image.copy(copy_data=False) copies the headers
 instead of sharing them with the original

---
 corgidrp/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 1405464..f233ac6 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -505,6 +505,10 @@ class Image():
             new_img = copy.deepcopy(self)
         else:
             new_img = copy.copy(self)
+            # headers are always copied, so that editing them doesn't alter the original
+            for attr, value in vars(self).items():
+                if isinstance(value, fits.Header):
+                    setattr(new_img, attr, value.copy())
             # copy the hdu_list and hdu_names list, but not their pointers
             new_img.hdu_list = self.hdu_list.copy()
             new_img.hdu_names = copy.copy(self.hdu_names)
-- 
2.43.0


From 6b24621c051d632f3bd6cb66680e0eb0d48e6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:55 +0000
Subject: [PATCH 02/93] fix: DetectorParams and FpamFsamCal made from values
 define hdu_names like any other data product

---
 corgidrp/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index f233ac6..c087159 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1185,6 +1185,7 @@ class DetectorParams(Image):
             self.err_hdr = fits.Header()
             self.dq_hdr = fits.Header()
 
+            self.hdu_names = ["ERR", "DQ"]
             self.hdu_list = fits.HDUList()
 
         # make a dictionary that's easy to use
@@ -1513,6 +1514,7 @@ class FpamFsamCal(Image):
             self.err_hdr = fits.Header()
             self.dq_hdr = fits.Header()
 
+            self.hdu_names = ["ERR", "DQ"]
             self.hdu_list = fits.HDUList()
 
         # if this is a new FpamFsamCal file, we need to bookkeep it in the
-- 
2.43.0


From a1be0f21797f9a3512290f4cd95ba8e54dbddb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:25 +0000
Subject: [PATCH 03/93] fix: autoload recognizes the DATATYPE of
 NDFilterSweetSpotDataset files and reports an undetermined datatype properly

---
 corgidrp/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index c087159..5ef885b 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2565,7 +2565,8 @@ datatypes = { "Image" : Image,
               "FluxcalFactor" : FluxcalFactor,
               "FpamFsamCal" : FpamFsamCal,
               "CoreThroughputCalibration": CoreThroughputCalibration,
-              "NDFilterSweetSpot": NDFilterSweetSpotDataset}
+              "NDFilterSweetSpot": NDFilterSweetSpotDataset,
+              "NDFilterSweetSpotDataset": NDFilterSweetSpotDataset} # value of DATATYPE in its header
 
 def autoload(filepath):
     """
@@ -2591,7 +2592,7 @@ def autoload(filepath):
                 dtype = "Image"
             else:
                 errmsg = "Could not determine datatype for {0}. Data shape of {1} is not 2-D"
-                raise ValueError(errmsg.format(filepath, dtype))
+                raise ValueError(errmsg.format(filepath, hdulist[1].data.shape))
 
     # if we got here, we have a datatype
     data_class = datatypes[dtype]
-- 
2.43.0


From e5459d35bebc46ada145510d918ffb3bfc531e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 04/93] fix: name the ERR and DQ extensions of DetectorParams
 and FpamFsamCal so that they are found again on loading

---
 corgidrp/data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 5ef885b..041c61e 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1184,6 +1184,8 @@ class DetectorParams(Image):
 
             self.err_hdr = fits.Header()
             self.dq_hdr = fits.Header()
+            self.err_hdr["EXTNAME"] = "ERR"
+            self.dq_hdr["EXTNAME"] = "DQ"
 
             self.hdu_names = ["ERR", "DQ"]
             self.hdu_list = fits.HDUList()
@@ -1513,6 +1515,8 @@ class FpamFsamCal(Image):
 
             self.err_hdr = fits.Header()
             self.dq_hdr = fits.Header()
+            self.err_hdr["EXTNAME"] = "ERR"
+            self.dq_hdr["EXTNAME"] = "DQ"
 
             self.hdu_names = ["ERR", "DQ"]
             self.hdu_list = fits.HDUList()
-- 
2.43.0


From 4a40b871d1969ffb25215b08e122522d407f6260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 05/93] fix: record parent files in a reproducible order

---
 corgidrp/data.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 041c61e..707b22b 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -476,14 +476,14 @@ class Image():
             input_dataset (corgidrp.data.Dataset): the input dataset that were combined together to make this image
         """
 
-        parent_filenames = set()
+        parent_filenames = {} # a dict rather than a set, to record each file once but in a reproducible order
         # go through filenames and also check each frames parents
         for img in input_dataset:
-            parent_filenames.add(img.filename)
+            parent_filenames[img.filename] = None
             # also check if this frame has parent frames. keep trakc of them too
             if 'DRPNFILE' in img.ext_hdr:
                 for j in range(img.ext_hdr['DRPNFILE']):
-                    parent_filenames.add(img.ext_hdr['FILE{0}'.format(j)])
+                    parent_filenames[img.ext_hdr['FILE{0}'.format(j)]] = None
         
         for i, filename in enumerate(parent_filenames):
             self.ext_hdr.set('FILE{0}'.format(i), filename, "File #{0} filename used to create this frame".format(i))
-- 
2.43.0


From c6ace0cea1a46fcd34718df99a8a6d0c053bd402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 06/93] fix: BadPixelMap and FluxcalFactor can be made from a
 header that already lists the input files

---
 corgidrp/data.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 707b22b..6c9d148 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -969,16 +969,21 @@ class BadPixelMap(Image):
             self.ext_hdr['DATATYPE'] = 'BadPixelMap'
 
             # log all the data that went into making this bad pixel map
-            self._record_parent_filenames(input_dataset)
+            if input_dataset is not None:
+                self._record_parent_filenames(input_dataset)
+                orig_input_filename = input_dataset[-1].filename
+            else:
+                # the files used are already archived in the header
+                orig_input_filename = self.ext_hdr['FILE0']
 
             # add to history
             self.ext_hdr['HISTORY'] = "Bad Pixel map created"
 
             # check whether we're making the bpmap from a flat only, or from L1/2 files. 
-            if "_FLT_CAL" in input_dataset[-1].filename:
-                self.filename = input_dataset[-1].filename.replace("_FLT_CAL", "_BPM_CAL")
+            if "_FLT_CAL" in orig_input_filename:
+                self.filename = orig_input_filename.replace("_FLT_CAL", "_BPM_CAL")
             else:
-                self.filename = re.sub('_L[0-9].', '_BPM_CAL', input_dataset[-1].filename)
+                self.filename = re.sub('_L[0-9].', '_BPM_CAL', orig_input_filename)
             
             # if no input_dataset is given, do we want to set the filename manually using 
             # header values?            
@@ -1417,7 +1422,8 @@ class FluxcalFactor(Image):
                     raise ValueError("This appears to be a new FluxcalFactor. The dataset of input files needs to be passed \
                                      in to the input_dataset keyword to record history of this FluxcalFactor file.")
                 else:
-                    pass
+                    # the files used are already archived in the header
+                    orig_input_filename = self.ext_hdr['FILE0'].split(".fits")[0]
             else:
                 # log all the data that went into making this calibration file
                 self._record_parent_filenames(input_dataset)
-- 
2.43.0


From c9d150319d56c1d99b470a45e0310e6bf7902afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 07/93] fix: prescan_biassub uses the given detector_regions to
 align the prescan with the image

---
 corgidrp/l1_to_l2a.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index c0d30b6..2465c79 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -80,9 +80,9 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
                 image_err = np.array(image_err)
 
                 # Get the part of the prescan that lines up with the image
-                i_r0 = detector_areas[arrtype]['image']['r0c0'][0]
-                p_r0 = detector_areas[arrtype]['prescan']['r0c0'][0]
-                i_nrow = detector_areas[arrtype]['image']['rows']
+                i_r0 = detector_regions[arrtype]['image']['r0c0'][0]
+                p_r0 = detector_regions[arrtype]['prescan']['r0c0'][0]
+                i_nrow = detector_regions[arrtype]['image']['rows']
                 al_prescan = prescan[(i_r0-p_r0):(i_r0-p_r0+i_nrow), :]
 
         else:
-- 
2.43.0


From a765236b2fad7b17d0ec6b400db3d2c586c5d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 08/93] fix: prescan_biassub uses the reliable prescan columns
 for ENG_CONV, whose prescan does not start at column 0

---
 corgidrp/l1_to_l2a.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 2465c79..a1a33db 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -98,8 +98,10 @@ def prescan_biassub(input_dataset, noise_maps=None, return_full_frame=False,
 
             al_prescan = prescan
 
-        st = detector_regions[arrtype]['prescan']['col_start']
-        end = detector_regions[arrtype]['prescan']['col_end']
+        # the reliable columns are given in full-frame columns, the prescan slice starts at its own first column
+        p_c0 = detector_regions[arrtype]['prescan']['r0c0'][1]
+        st = detector_regions[arrtype]['prescan']['col_start'] - p_c0
+        end = detector_regions[arrtype]['prescan']['col_end'] - p_c0
 
         # Measure bias and error (standard error of the median for each row, add this to 3D image array)
         medbyrow = np.median(al_prescan[:,st:end], axis=1)[:, np.newaxis]
-- 
2.43.0


From f087e9588760c42520de8e07fd09b819c5761341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 09/93] fix: detect_cosmic_rays uses the measured EM gain of
 frames that have one

---
 corgidrp/l1_to_l2a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index a1a33db..3bec01f 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -232,7 +232,7 @@ def detect_cosmic_rays(input_dataset, detector_params, k_gain = None, sat_thresh
                 emgain = frame.ext_hdr['EMGAIN_A']
             else: # otherwise use commanded EM gain
                 emgain = frame.ext_hdr['EMGAIN_C']
-            emgain_list.append(emgain)
+        emgain_list.append(emgain)
     emgain_arr = np.array(emgain_list)
     fwcpp_e_arr = np.array([detector_params.params['FWC_PP_E'] for frame in crmasked_dataset])
     fwcem_e_arr = np.array([detector_params.params['FWC_EM_E'] for frame in crmasked_dataset])
-- 
2.43.0


From c9cafe74be0530e0b182f6944fdd5ad6cf352497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 10/93] fix: convert_to_electrons keeps the individually
 tracked error layers

---
 corgidrp/l2a_to_l2b.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 3b03767..242e3e8 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -273,7 +273,8 @@ def convert_to_electrons(input_dataset, k_gain):
     kgain = k_gain.value #extract from caldb
     kgainerr = k_gain.error[0]
     # x = c*kgain, where c (counts beforehand) and kgain both have error, so do propogation of error due to the product of 2 independent sources
-    kgain_error = np.zeros_like(input_dataset.all_err)
+    # the individual error layers (if tracked) scale with kgain, the combined one in addition gets the error of kgain
+    kgain_error = kgain_dataset.all_err * kgain
     kgain_tot_err = (np.sqrt((kgain*kgain_dataset.all_err[:,0,:,:])**2 + (kgain_cube*kgainerr)**2))
     kgain_error[:,0,:,:] = kgain_tot_err
     kgain_cube *= kgain
-- 
2.43.0


From 3af9c5e24d5e052844ed2d6acadd6be3579a5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 11/93] fix: add_photon_noise does not turn the uncertainty of
 negative pixels into NaN

---
 corgidrp/l2a_to_l2b.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 242e3e8..399191e 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -27,7 +27,8 @@ def add_photon_noise(input_dataset):
                 em_gain = em_gain
             else: # otherwise use commanded EM gain
                 em_gain = frame.ext_hdr.get("EMGAIN_C", 0)
-        phot_err = np.sqrt(frame.data)
+        # no shot noise where noise fluctuations brought the signal below zero
+        phot_err = np.sqrt(np.maximum(frame.data, 0))
         #add excess noise in case of em_gain
         if em_gain > 1:
             phot_err *= np.sqrt(2)           
-- 
2.43.0


From 3707ed6d6fd5333c8313d99043a2c50b0bb6e208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 12/93] fix: correct_bad_pixels keeps all bits of the DQ flags

---
 corgidrp/l2a_to_l2b.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 399191e..782b7a6 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -369,11 +369,11 @@ def correct_bad_pixels(input_dataset, bp_mask):
 
     data = input_dataset.copy()
     data_cube = data.all_data
-    dq_cube = data.all_dq.astype(np.uint8)
+    dq_cube = data.all_dq.copy()
 
     for i in range(data_cube.shape[0]):
         # combine DQ and BP masks
-        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(np.uint8))
+        bp_dq_mask = np.bitwise_or(dq_cube[i],bp_mask.data.astype(dq_cube.dtype))
         # mask affected pixels with NaN
         bp = np.where(bp_dq_mask != 0)
         data_cube[i, bp[0], bp[1]] = np.nan
-- 
2.43.0


From 8707afe667eb1b4dcb56ac609b1ea147832dea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 13/93] fix: crop every frame around its own star location
 instead of that of the first frame

---
 corgidrp/l3_to_l4.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 0305bb4..db734c5 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -302,6 +302,7 @@ def crop(input_dataset, sizexy=None, centerxy=None):
        
     # Need to loop over frames and reinit dataset because array sizes change
     frames_out = []
+    input_sizexy, input_centerxy = sizexy, centerxy
 
     for frame in dataset:
         prihdr = frame.pri_hdr
@@ -309,6 +310,9 @@ def crop(input_dataset, sizexy=None, centerxy=None):
         dqhdr = frame.dq_hdr
         errhdr = frame.err_hdr
 
+        # the defaults are to be determined for each frame
+        sizexy, centerxy = input_sizexy, input_centerxy
+
         # Pick default crop size based on the size of the effective field of view
         if sizexy is None:
             if exthdr['LSAMNAME'] == 'NFOV':
-- 
2.43.0


From 44faf49cd15782f51dc24faf9b6a24072530159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 14/93] fix: crop shifts the WCS reference pixel written by
 create_wcs to the extension header

---
 corgidrp/l3_to_l4.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index db734c5..f95b258 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -382,10 +382,11 @@ def crop(input_dataset, sizexy=None, centerxy=None):
             exthdr["STARLOCX"] -= x1
             exthdr["STARLOCY"] -= y1
             updated_hdrs.append('STARLOCX/Y')
-        if ("CRPIX1" in prihdr.keys()):
-            prihdr["CRPIX1"] -= x1
-            prihdr["CRPIX2"] -= y1
-            updated_hdrs.append('CRPIX1/2')
+        for hdr in (prihdr, exthdr): # create_wcs() writes the WCS to the extension header
+            if ("CRPIX1" in hdr.keys()):
+                hdr["CRPIX1"] -= x1
+                hdr["CRPIX2"] -= y1
+                updated_hdrs.append('CRPIX1/2')
         if not ("DETPIX0X" in exthdr.keys()):
             exthdr.set('DETPIX0X',0)
             exthdr.set('DETPIX0Y',0)
-- 
2.43.0


From 71f762eac1e0aebb9a8b208aa460905050e072a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 15/93] fix: distortion_correction of images that are not
 square

---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index f95b258..48c5e0c 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -77,7 +77,7 @@ def distortion_correction(input_dataset, astrom_calibration):
         distmapY = y_corr - yorig
 
         # apply the distortion grid to the image indeces and map the image
-        gridx, gridy = np.meshgrid(np.arange(imgsize), np.arange(imgsize))
+        gridx, gridy = np.meshgrid(np.arange(im_data.shape[1]), np.arange(im_data.shape[0]))
         gridx = gridx - distmapX
         gridy = gridy - distmapY
 
-- 
2.43.0


From 5532c32ddc8f698c1768f9bfbce93c8aa3bc9a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 16/93] fix: distortion_correction no longer turns a whole
 frame with a bad pixel into NaN

---
 corgidrp/l3_to_l4.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 48c5e0c..f592238 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -1,6 +1,6 @@
 # A file that holds the functions that transmogrify l3 data to l4 data 
 
-from pyklip.klip import rotate
+from pyklip.klip import rotate, nan_map_coordinates_2d
 import scipy.ndimage
 from astropy.wcs import WCS
 
@@ -81,7 +81,8 @@ def distortion_correction(input_dataset, astrom_calibration):
         gridx = gridx - distmapX
         gridy = gridy - distmapY
 
-        undistorted_image = scipy.ndimage.map_coordinates(im_data, [gridy, gridx])
+        # (a plain spline interpolation would spread every NaN pixel over the whole image)
+        undistorted_image = nan_map_coordinates_2d(im_data, gridy, gridx, mc_kwargs={'cval': 0.0})
 
         undistorted_ims.append(undistorted_image)
 
-- 
2.43.0


From e122f901f01b3ada27882c8d0fbdf2935ed7a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 17/93] fix: northup keeps the individually tracked error
 layers

---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index f592238..cf82ef8 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -718,7 +718,7 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
 
         ## HDU ERR ##
         err_data = processed_data.err
-        err_derot = np.expand_dims(rotate(err_data[0],roll_angle,(xcen,ycen)), axis=0) # err data shape is 1x1024x1024
+        err_derot = np.array([rotate(err_layer,roll_angle,(xcen,ycen)) for err_layer in err_data]) # all error layers
         new_all_err.append(err_derot)
         #############
 
-- 
2.43.0


From 90937e397c9ac742c82a2e31ad6a7ab1efbb5d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 18/93] fix: northup rotates the DQ flags about the same point
 as the data

---
 corgidrp/l3_to_l4.py | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index cf82ef8..bb2ed2f 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -10,8 +10,6 @@ from corgidrp import star_center
 import corgidrp
 from corgidrp.klip_fm import meas_klip_thrupt
 from corgidrp.corethroughput import get_1d_ct
-from scipy.ndimage import rotate as rotate_scipy # to avoid duplicated name
-from scipy.ndimage import shift
 import warnings
 import numpy as np
 import pyklip.rdi
@@ -723,27 +721,13 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
         #############
 
         ## HDU DQ ##
-        # all DQ pixels must have integers, use scipy.ndimage.rotate with order=0 instead of klip.rotate (rotating the other way)
+        # all DQ pixels must have integers, use the nearest pixel of the same rotation as for the data
         dq_data = processed_data.dq
-        if xcen != xlen/2 or ycen != ylen/2:
-                # padding, shifting (rot center to image center), rotating, re-shift (image center to rot center), and cropping
-                # calculate shift values
-                xshift = xcen-xlen/2; yshift = ycen-ylen/2
-
-                # pad and shift
-                pad_x = int(np.ceil(abs(xshift))); pad_y = int(np.ceil(abs(yshift)))
-                dq_data_padded = np.pad(dq_data,pad_width=((pad_y, pad_y), (pad_x, pad_x)),mode='constant',constant_values=0)
-                dq_data_padded_shifted = shift(dq_data_padded,(-yshift,-xshift),order=0,mode='constant',cval=0)
-
-                # define slices for cropping
-                crop_x = slice(pad_x,pad_x+xlen); crop_y = slice(pad_y,pad_y+ylen)
-
-                # rotate (invserse direction to pyklip.rotate), re-shift, and crop
-                dq_derot = shift(rotate_scipy(dq_data_padded_shifted, -roll_angle, order=0, mode='constant', reshape=False, cval=0),\
-                 (yshift,xshift),order=0,mode='constant',cval=0)[crop_y,crop_x]
-        else:
-                # simply rotate 
-                dq_derot = rotate_scipy(dq_data, -roll_angle, order=0, mode='constant', reshape=False, cval=0)
+        ypix, xpix = np.indices(dq_data.shape, dtype=float)
+        cos_roll, sin_roll = np.cos(np.radians(roll_angle)), np.sin(np.radians(roll_angle))
+        xrot = (xpix-xcen)*cos_roll + (ypix-ycen)*sin_roll + xcen
+        yrot = -(xpix-xcen)*sin_roll + (ypix-ycen)*cos_roll + ycen
+        dq_derot = scipy.ndimage.map_coordinates(dq_data, [yrot, xrot], order=0, mode='grid-constant', cval=0)
 
         new_all_dq.append(dq_derot)
         ############
-- 
2.43.0


From d8a862b5b65ede0990fba7ed3022f82ebe9eac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 19/93] fix: northup updates the star location when not
 rotating about the star

---
 corgidrp/l3_to_l4.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index bb2ed2f..1d2d78b 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -712,6 +712,13 @@ def northup(input_dataset,use_wcs=True,rot_center='im_center'):
             sci_hd['CD1_2'] = astr_hdr.wcs.cd[0,1]
             sci_hd['CD2_1'] = astr_hdr.wcs.cd[1,0]
             sci_hd['CD2_2'] = astr_hdr.wcs.cd[1,1]
+
+        # the star moves as well if the image is not rotated about it
+        if 'STARLOCX' in sci_hd and 'STARLOCY' in sci_hd:
+            xstar, ystar = sci_hd['STARLOCX']-xcen, sci_hd['STARLOCY']-ycen
+            cos_roll, sin_roll = np.cos(np.radians(roll_angle)), np.sin(np.radians(roll_angle))
+            sci_hd['STARLOCX'] = xcen + xstar*cos_roll - ystar*sin_roll
+            sci_hd['STARLOCY'] = ycen + xstar*sin_roll + ystar*cos_roll
         #############
 
         ## HDU ERR ##
-- 
2.43.0


From f16d9f09f4f8819bbac46152720f283bf2ac4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 20/93] fix: photon-counted master dark records only the frames
 it was made from

---
 corgidrp/photon_counting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/photon_counting.py b/corgidrp/photon_counting.py
index 5f8978e..49eda56 100644
--- a/corgidrp/photon_counting.py
+++ b/corgidrp/photon_counting.py
@@ -147,7 +147,7 @@ def get_pc_mean(input_dataset, pc_master_dark=None, T_factor=None, pc_ecount_max
     list_new_image = []
     list_err = [] # only used for dark processing case
     list_dq = [] # only used for dark processing case
-    index_of_last_frame_used = num_bins*(len(input_dataset)//num_bins)
+    index_of_last_frame_used = num_bins*bin_size
     # this for loop ignores the remainder from the division above
     for i in range(num_bins):
         subset_frames = input_dataset.frames[bin_size*i:bin_size*(i+1)]
-- 
2.43.0


From faea557541cd927c00cfb346eed8fe9488e24b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 21/93] fix: custom satellite spot parameters no longer change
 the defaults for later calls of find_star

---
 corgidrp/star_center.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/star_center.py b/corgidrp/star_center.py
index fbae097..635a08a 100644
--- a/corgidrp/star_center.py
+++ b/corgidrp/star_center.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 from scipy.optimize import minimize
 
@@ -166,6 +167,9 @@ def update_parameters(params, new_values):
         >>> update_parameters(params, new_values)
         KeyError: "Subkey 'w' is not a valid parameter under key 'b'."
     """
+    # the given parameters may be shared (e.g. the defaults of an observing mode), so leave them unchanged
+    params = copy.deepcopy(params)
+
     for key, subdict in new_values.items():
         if key not in params:
             raise KeyError(f"Key '{key}' is not a valid parameter.")
-- 
2.43.0


From f1bbf0d9606bbe6de8097f24c9630ea9b643062d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:27 +0000
Subject: [PATCH 22/93] fix: PyKLIPDataset does not truncate the image centre
 when the star location is an integer

---
 corgidrp/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 6c9d148..e0b3bbb 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -2218,7 +2218,7 @@ class PyKLIPDataset(pyKLIP_Data):
             PIXSCALE += [pix_scale] 
 
             # Get centers.
-            centers = np.array([shead['STARLOCX'], shead['STARLOCY']] * NINTS)
+            centers = np.array([shead['STARLOCX'], shead['STARLOCY']] * NINTS, dtype=float)
 
             # Get metadata.
             input_all += [data]
@@ -2300,7 +2300,7 @@ class PyKLIPDataset(pyKLIP_Data):
                 PIXSCALE += [pix_scale] 
 
                 # Get centers.
-                centers = np.array([shead['STARLOCX'], shead['STARLOCY']] * NINTS)
+                centers = np.array([shead['STARLOCX'], shead['STARLOCY']] * NINTS, dtype=float)
 
                 psflib_data_all += [data]
                 psflib_centers_all += [centers]
-- 
2.43.0


From e8fe8282dbb954b32f82f9f64fd56dc7c54a2253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 23/93] fix: build_trad_dark does not modify the headers of the
 input dataset

---
 corgidrp/darks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index eb1b9aa..61b2e5c 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -189,7 +189,7 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
     if detector_regions is None:
             detector_regions = detector_areas
 
-    _, unique_vals = dataset.split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
+    _, unique_vals = dataset.copy().split_dataset(exthdr_keywords=['EXPTIME', 'EMGAIN_C', 'KGAINPAR'])
     if len(unique_vals) > 1:
         raise Exception('Input dataset should contain frames of the same exposure time, commanded EM gain, and k gain.')
     # getting telemetry rows to ignore in fit
@@ -245,9 +245,9 @@ def build_trad_dark(dataset, detector_params, detector_regions=None, full_frame=
         data = mean_frame
 
     # get from one of the noise maps and modify as needed
-    prihdr = dataset.frames[0].pri_hdr
-    exthdr = dataset.frames[0].ext_hdr
-    errhdr = dataset.frames[0].err_hdr
+    prihdr = dataset.frames[0].pri_hdr.copy()
+    exthdr = dataset.frames[0].ext_hdr.copy()
+    errhdr = dataset.frames[0].err_hdr.copy()
     exthdr['NAXIS1'] = data.shape[1]
     exthdr['NAXIS2'] = data.shape[0]
     exthdr['DATATYPE'] = 'Dark'
-- 
2.43.0


From 4b62d6a09cc1088cc5889e4c56a54347599286de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:16 +0000
Subject: [PATCH 24/93] fix: calibrate_darks_lsq works when the stack of lowest
 gain times exposure time has the highest gain

---
 corgidrp/darks.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index 61b2e5c..b8e59ed 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -563,8 +563,11 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     # same time, next gain up from least gain (close in time*gain but different
     # gain so that effective read noise values are more uncorrelated)
     tinds = np.where(exptime_arr == exptime_arr[min1])
-    nextg = EMgain_arr[EMgain_arr > EMgain_arr[min1]].min()
-    ginds = np.where(EMgain_arr == nextg)
+    higherg = EMgain_arr[EMgain_arr > EMgain_arr[min1]]
+    if higherg.size > 0:
+        ginds = np.where(EMgain_arr == higherg.min())
+    else: # the stack already has the highest gain
+        ginds = np.array([], dtype=int)
     intersect = np.intersect1d(tinds, ginds)
     if intersect.size > 0:
         min2 = intersect[0]
-- 
2.43.0


From 1b142596a348f92a97a465db3ed052a73ac1e54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 25/93] fix: calibrate_darks_lsq fits pixels masked throughout
 a sub-stack to the other sub-stacks instead of to zero

---
 corgidrp/darks.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/corgidrp/darks.py b/corgidrp/darks.py
index b8e59ed..1f2dfb9 100644
--- a/corgidrp/darks.py
+++ b/corgidrp/darks.py
@@ -452,6 +452,7 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     mean_frames = []
     total_errs = []
     mean_num_good_fr = []
+    sampled = []
     unreliable_pix_map = np.zeros((detector_regions['SCI']['frame_rows'],
                                    detector_regions['SCI']['frame_cols'])).astype(int)
     unfittable_pix_map = unreliable_pix_map.copy()
@@ -513,6 +514,7 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
         mean_frames.append(mean_frame)
         total_errs.append(total_err)
         mean_num_good_fr.append(mean_num)
+        sampled.append(unmasked_num > 0)
         unreliable_pix_map += pixel_mask
         unfittable_pix_map += combined_bpmap
     unreliable_pix_map = unreliable_pix_map.astype(int)
@@ -592,6 +594,17 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     X = np.array([np.ones([len(EMgain_arr)]), EMgain_arr, EMgain_arr*exptime_arr]).T
     mean_stack_Y = np.transpose(mean_stack, (2,0,1))
     params_Y = np.linalg.pinv(X)@mean_stack_Y
+    # a sub-stack in which a pixel is masked in every frame holds no measurement
+    # of that pixel: fit such a pixel to the other sub-stacks only
+    sampled = np.stack(sampled)
+    num_sampled = np.full(mean_stack[0].shape, M)
+    for row, col in np.argwhere(~sampled.all(axis=0)):
+        good = sampled[:, row, col]
+        if good.sum() > 3:
+            params_Y[col, :, row] = np.linalg.pinv(X[good])@mean_stack[good, row, col]
+            # the left-out sub-stacks do not contribute to the residuals
+            mean_stack[~good, row, col] = X[~good]@params_Y[col, :, row]
+            num_sampled[row, col] = good.sum()
     #next line: checked with KKT method for including bounds
     #actually, do this after determining everything else so that
     # bias_offset, etc is accurate
@@ -604,7 +617,7 @@ def calibrate_darks_lsq(dataset, detector_params, detector_regions=None):
     # This is OLS since the parameters to fit are linear in fit function
     # 3: number of fitted params
     residual_stack = mean_stack - np.transpose(X@params_Y, (1,2,0))
-    sigma2_frame = np.sum(residual_stack**2, axis=0)/(M - 3)
+    sigma2_frame = np.sum(residual_stack**2, axis=0)/(num_sampled - 3)
     # average sigma2 for image area and use that for all three vars since
     # that's only place where all 3 (F, C, and D) should be present
     sigma2_image = imaging_slice('SCI', sigma2_frame, detector_regions)
-- 
2.43.0


From 8b4488f9d2bb7961f152716ca2f694ee60f9f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 26/93] fix: create_onsky_flatfield does not modify the pixels
 and headers of the input dataset

---
 corgidrp/flat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 4cf5dbd..871f323 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -230,8 +230,8 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
     smooth_images=[]; raster_images_cent=[]; cent=[]; act_cents=[]; frames=[];
     for j in range(len(dataset)):
         planet_image=dataset[j].data
-        prihdr=dataset[j].pri_hdr
-        exthdr=dataset[j].ext_hdr
+        prihdr=dataset[j].pri_hdr.copy()
+        exthdr=dataset[j].ext_hdr.copy()
         image_size=np.shape(planet_image)
         centroid = centr.centroid_com(planet_image)
         centroid[np.isnan(centroid)]=0
@@ -244,7 +244,7 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
             ycoords, xcoords = np.indices(planet_image.shape)
             dist_from_planet = np.sqrt((xcoords - xc)**2 + (ycoords - yc)**2)
             sky_annulus = np.where((dist_from_planet >= sky_annulus_rin*planet_rad) & (dist_from_planet < sky_annulus_rout*planet_rad))
-            planet_image -= np.nanmedian(planet_image[sky_annulus])
+            planet_image = planet_image - np.nanmedian(planet_image[sky_annulus])
 
         smooth_images.append(planet_image)
         # cropping the raster scanned images
-- 
2.43.0


From 0d4eb8629f43e95d96fab39ad5f388c15cea0d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 27/93] fix: create_onsky_flatfield returns its uncertainty
 with the leading layer axis

---
 corgidrp/flat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index 871f323..d0faa39 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -256,6 +256,6 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
     raster_com=combine_flatfield_rasters(resi_images,planet=planet,band=band,cent=cent, im_size=im_size, rad_mask=rad_mask,planet_rad=planet_rad,n_pix=n_pix, n_pad=n_pad)
     onskyflat=raster_com[0]
     onsky_flatfield = data.FlatField(onskyflat, pri_hdr=prihdr, ext_hdr=exthdr, input_dataset=dataset)
-    onsky_flatfield.err=raster_com[1]
+    onsky_flatfield.err=raster_com[1].reshape((1,)+raster_com[1].shape) # Get it into the right dimension
     
     return(onsky_flatfield)
-- 
2.43.0


From bcccc0b3693df117b36de92c6b50734c6dfe7282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 28/93] fix: create_onsky_flatfield pads to 1024x1024 pixels by
 default

---
 corgidrp/flat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index d0faa39..b28b4ba 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -206,7 +206,7 @@ def create_onsky_flatfield(dataset, planet=None,band=None,up_radius=55,im_size=N
         im_size = dataset[0].data.shape[0]
 
     if n_pad is None:
-        n_pad = 1024 - im_size
+        n_pad = (1024 - im_size)//2 # padded on both sides
         if n_pad < 0:
             n_pad = 0 
 
-- 
2.43.0


From c8f8e00d926aed66c859929c3204e483dced3644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 29/93] fix: create_onsky_flatfield masks the planet at its
 position in the cropped image whatever the crop size

---
 corgidrp/flat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/flat.py b/corgidrp/flat.py
index b28b4ba..3263a4d 100644
--- a/corgidrp/flat.py
+++ b/corgidrp/flat.py
@@ -141,7 +141,8 @@ def combine_flatfield_rasters(residual_images,cent=None,planet=None,band=None,im
         nx = np.arange(0,residual_images[i].shape[1])
         ny = np.arange(0,residual_images[i].shape[0])
         nxx,nyy = np.meshgrid(nx,ny)
-        nrr = np.sqrt((nxx-rad-5)**2 + (nyy-rad-5)**2)
+        # the planet is at the center of the cropped image
+        nrr = np.sqrt((nxx-residual_images[i].shape[1]//2)**2 + (nyy-residual_images[i].shape[0]//2)**2)
         nrr_copy = nrr.copy();  nrr_err_copy=nrr.copy()
         nrr_copy[nrr<rad] = residual_images[i][nrr<rad]
         nrr_copy[nrr>=rad] = None
-- 
2.43.0


From 055bc5510d69da347a437f10cc09d097d2569f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:10 +0000
Subject: [PATCH 30/93] fix: create_bad_pixel_map does not turn the given dark
 and flat into views of a common cube

---
 corgidrp/bad_pixel_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/bad_pixel_calibration.py b/corgidrp/bad_pixel_calibration.py
index 2a95c0f..d128ed4 100644
--- a/corgidrp/bad_pixel_calibration.py
+++ b/corgidrp/bad_pixel_calibration.py
@@ -50,7 +50,7 @@ def create_bad_pixel_map(dataset, master_dark, master_flat, dthresh = 5., ffrac
     dark_ext_hdr['DATALVL']  = 'CAL'
     dark_ext_hdr['HISTORY'] = "Bad Pixel Map created using {} and {}".format(master_dark.filename,master_flat.filename)
 
-    input_dataset = Dataset([master_dark,master_flat])
+    input_dataset = Dataset([master_dark.copy(),master_flat.copy()])
 
     #Make the BadPixelMap object
     badpixelmap = BadPixelMap(combined_badpixels,pri_hdr=dark_hdr,ext_hdr=dark_ext_hdr,input_dataset=input_dataset)
-- 
2.43.0


From b2715bd329713e5c6582690941382bb8ccfaadbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 31/93] fix: sort_pupilimg_frames finds the k-gain series when
 other unity-gain sets or a second series were taken before it

---
 corgidrp/sorting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/corgidrp/sorting.py b/corgidrp/sorting.py
index e3fea75..24de649 100644
--- a/corgidrp/sorting.py
+++ b/corgidrp/sorting.py
@@ -151,10 +151,11 @@ def sort_pupilimg_frames(
             len(exptime_cons2) == len(set(exptime_cons2))):
             kgain_subset += [idx_cons2[0], idx_count+1]
             idx_cons2 = [idx_count+1]
-            exptime_cons2 = [exptime_cons]
+            exptime_cons2 = [exptime_cons[idx_count+1]]
         else:
-        # It is not a subset for kgain
-           continue
+        # It is not a subset for kgain: start over with the next set
+            idx_cons2 = [idx_count+1]
+            exptime_cons2 = [exptime_cons[idx_count+1]]
     # Choose the largest subset
     kgain_subset = np.array(kgain_subset)
     idx_kgain = np.argmax(kgain_subset[1::2] - kgain_subset[0::2])
-- 
2.43.0


From 42d25e7e52e3eba68563ea2d7e6e55ed5bc17346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 32/93] fix: calibrate_kgain and calibrate_nonlin do not modify
 the headers of the input dataset

---
 corgidrp/calibrate_kgain.py  | 4 ++--
 corgidrp/calibrate_nonlin.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/corgidrp/calibrate_kgain.py b/corgidrp/calibrate_kgain.py
index 8c4c99b..d9371d5 100644
--- a/corgidrp/calibrate_kgain.py
+++ b/corgidrp/calibrate_kgain.py
@@ -772,8 +772,8 @@ def calibrate_kgain(dataset_kgain,
              compiled_binned_shot_deviations]
     ptc = np.column_stack(ptc_list)
 
-    prhd = dataset_kgain.frames[0].pri_hdr
-    exthd = dataset_kgain.frames[0].ext_hdr
+    prhd = dataset_kgain.frames[0].pri_hdr.copy()
+    exthd = dataset_kgain.frames[0].ext_hdr.copy()
     # Read noise and error
     exthd['RN'] = mean_rn_gauss_e
     
diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 3abe5d0..7e03b97 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -822,8 +822,8 @@ def calibrate_nonlin(dataset_nl,
     nonlin_data=np.insert(nonlin_arr3, 0, actual_gain_arr).reshape(n_col,n_row)
     
     # Return NonLinearity instance
-    prhd = dataset_nl.frames[0].pri_hdr
-    exthd = dataset_nl.frames[0].ext_hdr
+    prhd = dataset_nl.frames[0].pri_hdr.copy()
+    exthd = dataset_nl.frames[0].ext_hdr.copy()
     exthd['HISTORY'] = f"Non-linearity calibration derived from a set of frames on {exthd['DATETIME']}"
     # Just for the purpose of getting the instance created
     nonlin = data.NonLinearityCalibration(nonlin_data,
-- 
2.43.0


From bfe9c19ade15361c96f34f1b33e16e380427d77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 33/93] fix: gain and linearity calibrations record one EM gain
 per frame set when it was measured too

---
 corgidrp/calibrate_kgain.py  | 2 +-
 corgidrp/calibrate_nonlin.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/calibrate_kgain.py b/corgidrp/calibrate_kgain.py
index d9371d5..6a6484f 100644
--- a/corgidrp/calibrate_kgain.py
+++ b/corgidrp/calibrate_kgain.py
@@ -876,7 +876,7 @@ def kgain_dataset_2_list(dataset):
                             gains.append(frame.ext_hdr['EMGAIN_A'])
                         else: # use commanded gain otherwise
                             gains.append(frame.ext_hdr['EMGAIN_C'])
-                        record_gain = False
+                    record_gain = False
                 
         # Calibration data may have different subsets
         if len(sub_stack) != 0:
diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 7e03b97..014d4b5 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -906,7 +906,7 @@ def nonlin_dataset_2_stack(dataset):
                             gains.append(frame.ext_hdr['EMGAIN_A'])
                         else: # use commanded gain otherwise
                             gains.append(frame.ext_hdr['EMGAIN_C'])
-                        record_gain = False
+                    record_gain = False
             else:
                 raise Exception('OBSNAME can only be MNFRAME or NONLIN in non-linearity')
         
-- 
2.43.0


From 61db81d02c0b6dbc7989227db3de51f0ca3516dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 34/93] fix: calibrate_nonlin measures the illumination drift
 from the second half of the repeated frames only

---
 corgidrp/calibrate_nonlin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/calibrate_nonlin.py b/corgidrp/calibrate_nonlin.py
index 014d4b5..144e7ae 100644
--- a/corgidrp/calibrate_nonlin.py
+++ b/corgidrp/calibrate_nonlin.py
@@ -615,7 +615,8 @@ def calibrate_nonlin(dataset_nl,
                     repeat1_mean_signal = np.nanmean(frame_mean)
                     
                     second_half = len(selected_files)
-                    for i in range(first_half + 1, second_half):
+                    frame_mean = []
+                    for i in range(first_half, second_half):
                        
                         frame_1 = selected_files[i]
                         frame_1 = frame_1.astype(np.float64)
-- 
2.43.0


From 228a92b357612418136ee7ed3fa7222fd554587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:06 +0000
Subject: [PATCH 35/93] fix: trap_fit fits the capture-time model instead of
 always failing

---
 corgidrp/pump_trap_calibration.py | 81 ++++++++++++++++---------------
 1 file changed, 41 insertions(+), 40 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index adca7b3..f3151df 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -17,6 +17,7 @@ https://doi.org/10.1117/1.JATIS.7.1.016003
     - output is now a corgi.drp.TrapCalibration object
 """
 import warnings
+from functools import partial
 import numpy as np
 
 from corgidrp.detector import *
@@ -741,10 +742,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         if both_a == None:
             # attempt all possible probability functions
             try:
-                popt1l, pcov1l = curve_fit(P1, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf,kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt1u, pcov1u = curve_fit(P1, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf,kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt1l, pcov1l = curve_fit(partial(P1, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = 1000)#, sigma = 0.1*amps)
+                popt1u, pcov1u = curve_fit(partial(P1, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = 1000)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -765,10 +766,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
                 popt1 = popt1u; pcov1 = pcov1u
 
             try:
-                popt2l, pcov2l = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt2u, pcov2u = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt2l, pcov2l = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = 1000)#, sigma = 0.1*amps)
+                popt2u, pcov2u = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = 1000)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -805,10 +806,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         # maxR1 must have been below fit_thresh.  Now try 2 traps
 
         try:
-            popt11l, pcov11l = curve_fit(P1_P1, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt11u, pcov11u = curve_fit(P1_P1, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt11l, pcov11l = curve_fit(partial(P1_P1, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = 1000)#, sigma = 0.1*amps)
+            popt11u, pcov11u = curve_fit(partial(P1_P1, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = 1000)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -831,10 +832,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt11 = popt11u; pcov11 = pcov11u
 
         try:
-            popt12l, pcov12l = curve_fit(P1_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt12u, pcov12u = curve_fit(P1_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt12l, pcov12l = curve_fit(partial(P1_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = 1000)#, sigma = 0.1*amps)
+            popt12u, pcov12u = curve_fit(partial(P1_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = 1000)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -857,10 +858,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt12 = popt12u; pcov12 = pcov12u
 
         try:
-            popt22l, pcov22l = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt22u, pcov22u = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt22l, pcov22l = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = 1000)#, sigma = 0.1*amps)
+            popt22u, pcov22u = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = 1000)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -974,10 +975,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         if both_a == None:
             #attempt both probability functions
             try:
-                popt3l, pcov3l = curve_fit(P3, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt3u, pcov3u = curve_fit(P3, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt3l, pcov3l = curve_fit(partial(P3, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = 1000)#, sigma = 0.1*amps)
+                popt3u, pcov3u = curve_fit(partial(P3, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = 1000)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -998,10 +999,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
                 popt3 = popt3u; pcov3 = pcov3u
 
             try:
-                popt2l, pcov2l = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-                popt2u, pcov2u = curve_fit(P2, times, amps, bounds=bounds_one,
-                p0 = p01u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+                popt2l, pcov2l = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01l, maxfev = 1000)#, sigma = 0.1*amps)
+                popt2u, pcov2u = curve_fit(partial(P2, num_pumps=num_pumps), times, amps, bounds=bounds_one,
+                p0 = p01u, maxfev = 1000)#, sigma = 0.1*amps)
             except:
                 warnings.warn('curve_fit failed')
                 return None
@@ -1038,10 +1039,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
         # maxR1 must have been below fit_thresh.  Now try 2 traps
 
         try:
-            popt33l, pcov33l = curve_fit(P3_P3, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt33u, pcov33u = curve_fit(P3_P3, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt33l, pcov33l = curve_fit(partial(P3_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = 1000)#, sigma = 0.1*amps)
+            popt33u, pcov33u = curve_fit(partial(P3_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = 1000)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -1064,10 +1065,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt33 = popt33u; pcov33 = pcov33u
 
         try:
-            popt23l, pcov23l = curve_fit(P2_P3, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt23u, pcov23u = curve_fit(P2_P3, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt23l, pcov23l = curve_fit(partial(P2_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = 1000)#, sigma = 0.1*amps)
+            popt23u, pcov23u = curve_fit(partial(P2_P3, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = 1000)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
@@ -1090,10 +1091,10 @@ def trap_fit(scheme, amps, times, num_pumps, fit_thresh, tau_min, tau_max,
             popt23 = popt23u; pcov23 = pcov23u
 
         try:
-            popt22l, pcov22l = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02l, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
-            popt22u, pcov22u = curve_fit(P2_P2, times, amps, bounds=bounds_two,
-            p0 = p02u, maxfev = np.inf, kwargs={"num_pumps" : num_pumps})#, sigma = 0.1*amps)
+            popt22l, pcov22l = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02l, maxfev = 1000)#, sigma = 0.1*amps)
+            popt22u, pcov22u = curve_fit(partial(P2_P2, num_pumps=num_pumps), times, amps, bounds=bounds_two,
+            p0 = p02u, maxfev = 1000)#, sigma = 0.1*amps)
         except:
             warnings.warn('curve_fit failed')
             return None
-- 
2.43.0


From 0c0a5c91de913c17012a7107fce590e16547879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 36/93] fix: dipole amplitudes of two-orientation pixels are
 converted to electrons in scheme 1

---
 corgidrp/pump_trap_calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index f3151df..b94eb09 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -2471,6 +2471,8 @@ def tpump_analysis(input_dataset,time_head = 'TPTAU',
                     rc_below[i]['loc_med_max'] *= eperdn
                 for i in rc_both:
                     rc_both[i]['amps_both'] *= eperdn
+                    rc_both[i]['above']['amp'] *= eperdn
+                    rc_both[i]['below']['amp'] *= eperdn
                     rc_both[i]['loc_med_min'] *= eperdn
                     rc_both[i]['loc_med_max'] *= eperdn
             # below: short for no prob fit for scheme 1 above, below, both
-- 
2.43.0


From a66de1fbfc21bc9dc842349dea4bde78255e9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 37/93] fix: the trap calibration does not modify the headers
 of the input dataset

---
 corgidrp/pump_trap_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/pump_trap_calibration.py b/corgidrp/pump_trap_calibration.py
index b94eb09..afd1aeb 100644
--- a/corgidrp/pump_trap_calibration.py
+++ b/corgidrp/pump_trap_calibration.py
@@ -3292,8 +3292,8 @@ def create_TrapCalibration_from_trap_dict(trap_dict,input_dataset):
         trap_cal_array[i,9] = dict_entry['tau at input T']
 
     #Great the header from the first file
-    first_file_pri_hdr = input_dataset[0].pri_hdr
-    first_file_ext_hdr = input_dataset[0].ext_hdr
+    first_file_pri_hdr = input_dataset[0].pri_hdr.copy()
+    first_file_ext_hdr = input_dataset[0].ext_hdr.copy()
 
     trapcal = TrapCalibration(trap_cal_array,pri_hdr = first_file_pri_hdr, 
                     ext_hdr = first_file_ext_hdr, 
-- 
2.43.0


From 80edb90d76b6c89331bc7e17f44c218b719f2dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 38/93] fix: core throughput interpolation at the edge azimuth
 writes to its own target

---
 corgidrp/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index e0b3bbb..968df93 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -1845,7 +1845,7 @@ class CoreThroughputCalibration(Image):
             for idx_x in idx_x_arr:
                 # If and only if the same index is in both, it's the same location
                 if idx_x in idx_y_arr:
-                    interpolated_values[idx_x] = core_throughput[idx_x]
+                    interpolated_values[idx] = core_throughput[idx_x]
             
         # Raise ValueError if all CT are NaN
         if np.all(np.isnan(interpolated_values)):
-- 
2.43.0


From 3759eacfecdd8a3e6bbde2446d808c58529abdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 39/93] fix: the core throughput map is saved to the given file
 path

---
 corgidrp/corethroughput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/corethroughput.py b/corgidrp/corethroughput.py
index 1f33ce9..05fe131 100644
--- a/corgidrp/corethroughput.py
+++ b/corgidrp/corethroughput.py
@@ -535,7 +535,7 @@ def CreateCTMap(
         if filepath == None:
             # Choose a default location and filename
             filepath = os.path.join(corgidrp.default_cal_dir, 'ct_map.csv')
-            np.savetxt(filepath, ct_map, delimiter=',', header='x, y, ct')
-            print(f'CT map saved in {filepath:s}')
+        np.savetxt(filepath, ct_map, delimiter=',', header='x, y, ct')
+        print(f'CT map saved in {filepath:s}')
     
     return ct_map
-- 
2.43.0


From 2663ad06591fb8fcd001dd2059786ebf0675ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 40/93] fix: plate scale and north angle average angles as
 directions

---
 corgidrp/astrom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 36e9d18..fdf735f 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -784,7 +784,7 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
         if i != same_ind:
             numerator = np.sin(np.radians(sky - pix))
             denominator = np.cos(np.radians(sky - pix))
-            north_offset = np.degrees(np.arctan(numerator / denominator))
+            north_offset = np.degrees(np.arctan2(numerator, denominator))
             # if sky > pix:
             #     north_offset = sky - pix
             # else:
@@ -795,8 +795,8 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
     if same_ind != None:
         offset = np.delete(offset, same_ind)
 
-    # use the median to avoid bias
-    north_angle = np.mean(offset)
+    # average the directions, so that angles on both sides of +/-180 deg do not cancel
+    north_angle = np.degrees(np.angle(np.mean(np.exp(1j * np.radians(offset)))))
     
     return platescale, north_angle
 
-- 
2.43.0


From 8b8697378be0e2bc8b6851d487581118f314534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 41/93] fix: the boresight offset is rotated to the sky and
 divided by cos(dec)

---
 corgidrp/astrom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index fdf735f..b5eeb6d 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -882,8 +882,9 @@ def compute_boresight(image, source_info, target_coordinate, cal_properties):
     # image_center_DEC = target_coordinate[1] - ((boresight_y * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
 
     # report the offsets instead of the new RA/DEC
-    boresight_ra = ((boresight_x * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
-    boresight_dec = ((boresight_y * cal_properties[0]) * astropy.units.mas).to(astropy.units.deg).value
+    # (rotated from the detector axes to the sky, such that target - offset is the position of the image center)
+    boresight_ra, boresight_dec = cdmatrix @ np.array([boresight_x, boresight_y])
+    boresight_ra /= np.cos(np.radians(target_coordinate[1]))
 
     return boresight_ra, boresight_dec
 
-- 
2.43.0


From c58a6b39c8dbc124c1b1b4414bb41246c85f098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 42/93] fix: match_sources pairs the triangle corners for the
 north angle

---
 corgidrp/astrom.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index b5eeb6d..6d4b212 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -438,6 +438,7 @@ def match_sources(image, sources, field_path, comparison_threshold=50, rad=0.012
 
     # define the side length to perimeter ratio for the triangle made from these sources [pixels]
     l1, l2, l3 = np.sqrt(np.power(source1['x'] - source2['x'], 2) + np.power(source1['y'] - source2['y'], 2)), np.sqrt(np.power(source2['x'] - source3['x'], 2) + np.power(source2['y'] - source3['y'], 2)), np.sqrt(np.power(source3['x'] - source1['x'], 2) + np.power(source3['y'] - source1['y'], 2))
+    image_sides = [l1, l2, l3]
     perimeter = l1 + l2 + l3
 
     # the shortest to longest sides get reordered to l1, l2, l3
@@ -496,14 +497,20 @@ def match_sources(image, sources, field_path, comparison_threshold=50, rad=0.012
     best_l1, best_l2, best_l3 = field_side_lengths[best_ind]
     initial_platescale = np.mean(np.array([best_l1 / l1, best_l2 / l2, best_l3 / l3]))  # [deg/mas]
 
-    # find pseudo north angle from difference in triangle rotations from the target value
-    # using found target pixel
-  
-    # rot_image = np.array([angle_between(((xmid-1) //2, (ymid-1) //2), (s['x'], s['y'])) for s in [source1, source2, source3]])
-    rot_image = np.array([angle_between((targetx, targety), (s['x'], s['y'])) for s in [source1, source2, source3]])
-    rot_field = np.array([target_skycoord.position_angle(t).deg for t in skycoords[[best_sky_ind]]])
+    # find pseudo north angle from the difference in rotation of the two triangles
+    # the corners are paired by the length of the side facing them
+    def corners_by_facing_side(sides_12_23_31):
+        return np.array([2, 0, 1])[np.argsort(sides_12_23_31)]
+
+    s1, s2, s3 = skycoords[list(best_sky_ind)]
+    field_corners = [[s1, s2, s3][k] for k in corners_by_facing_side([s1.separation(s2).mas, s2.separation(s3).mas, s3.separation(s1).mas])]
+    image_corners = [[source1, source2, source3][k] for k in corners_by_facing_side(image_sides)]
+
+    rot_image = np.array([angle_between((image_corners[k]['x'], image_corners[k]['y']), (image_corners[k-1]['x'], image_corners[k-1]['y'])) for k in range(3)])
+    rot_field = np.array([field_corners[k].position_angle(field_corners[k-1]).deg for k in range(3)])
 
-    initial_northangle = np.abs(np.mean(rot_field - rot_image))
+    # average the directions, so that angles on both sides of 0/360 deg do not cancel
+    initial_northangle = np.degrees(np.angle(np.mean(np.exp(1j * np.radians(rot_field - rot_image)))))
 
     # make a new image header with the pseudo platescale and north angle to find matchings
     # allow for some error window and assign the closest star to each source
-- 
2.43.0


From 400b27028c6f79e54b0d1a83ad30fdec13730d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 43/93] fix: boresight calibration uses the field matches it is
 given

---
 corgidrp/astrom.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 6d4b212..ae3e5a7 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1115,8 +1115,11 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
         target_coord_tables.append(target_coord_tab)
    
         # compute the calibration properties
-        found_sources = find_source_locations(image, threshold=find_threshold, fwhm=fwhm, mask_rad=mask_rad)
-        matched_sources = match_sources(dataset[i], found_sources, field_path, comparison_threshold=comparison_threshold, rad=search_rad, platescale_guess=platescale_guess, platescale_tol=platescale_tol)
+        if field_matches is not None:
+            matched_sources = matched_sources_multiframe[i]
+        else:
+            found_sources = find_source_locations(image, threshold=find_threshold, fwhm=fwhm, mask_rad=mask_rad)
+            matched_sources = match_sources(dataset[i], found_sources, field_path, comparison_threshold=comparison_threshold, rad=search_rad, platescale_guess=platescale_guess, platescale_tol=platescale_tol)
         # if len(hold_matches) < 1:
         hold_matches.append(matched_sources)
 
-- 
2.43.0


From e1ddb3f01fdcbd5811de4931f00cf6bb2162c545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 44/93] fix: astrometric calibration does not modify the
 headers of the input

---
 corgidrp/astrom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index ae3e5a7..767cd95 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1088,7 +1088,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
                 file_name = input_dataset[count].filename
 
             comb = np.mean(sub_array, axis=0)
-            im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr, ext_hdr=input_dataset[0].ext_hdr)
+            im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy())
             im.filename = file_name
             image_objects.append(im)
         
@@ -1161,7 +1161,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     astromcal_data = np.concatenate((np.array([corr_pos_ra, corr_pos_dec, avg_platescale_x, avg_platescale_y, avg_northangle, avg_ra, avg_dec]), np.array(distortion_coeffs), np.array([order])), axis=0)
 
     astroms_dataset = corgidrp.data.Dataset(astroms)
-    avg_cal = corgidrp.data.AstrometricCalibration(astromcal_data, pri_hdr=input_dataset[0].pri_hdr, ext_hdr=input_dataset[0].ext_hdr, input_dataset=astroms_dataset)
+    avg_cal = corgidrp.data.AstrometricCalibration(astromcal_data, pri_hdr=input_dataset[0].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy(), input_dataset=astroms_dataset)
     # add the corrected RA/DEC for each frame to the ext_hdr
     for i, corr in enumerate(corrected_positions_boresight):
         name = 'F'+str(i)+'POS'
-- 
2.43.0


From 397f62ec7a6718ffc2d0538bb3429cefb4e661e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 45/93] fix: PSF shifts extend the edge pixels

---
 corgidrp/astrom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 767cd95..ba53f49 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -103,7 +103,7 @@ def shift_psf(frame, dx, dy, flux, fitsize=10, stampsize=10):
     xstamp += stampsize//2 + dx
     ystamp += stampsize//2 + dy
     
-    return ndi.map_coordinates(frame * flux, [ystamp, xstamp], mode='constant', cval=0.0).ravel()
+    return ndi.map_coordinates(frame * flux, [ystamp, xstamp], mode='nearest').ravel()
     
 def measure_offset(frame, xstar_guess, ystar_guess, xoffset_guess, yoffset_guess, guessflux=1, rad=5, stampsize=10):
     """
-- 
2.43.0


From 3f61a678b1e06e8e0a0bd884ed0c604b7d474abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 46/93] fix: north angles of several frames are averaged as
 directions

---
 corgidrp/astrom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index ba53f49..e502e66 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1141,7 +1141,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     avg_dec = np.mean([astro.avg_offset[1] for astro in astroms])
     avg_platescale_x = np.mean([astro.platescale[0] for astro in astroms])
     avg_platescale_y = np.mean([astro.platescale[1] for astro in astroms])
-    avg_northangle = np.mean([astro.northangle for astro in astroms])
+    avg_northangle = np.degrees(np.angle(np.mean(np.exp(1j * np.radians([astro.northangle for astro in astroms])))))
 
     # compute the distortion map coeffs
     if find_distortion:
-- 
2.43.0


From ad24e7c607b9e14bde47ae21488f2ff9ca4589ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 47/93] fix: NaN is no valid real number for the parameter
 checks

---
 corgidrp/check.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/check.py b/corgidrp/check.py
index a076e19..13cb32f 100644
--- a/corgidrp/check.py
+++ b/corgidrp/check.py
@@ -67,7 +67,7 @@ def real_positive_scalar(var, vname, vexc):
         raise vexc(vname + ' must be scalar')
     if not np.isrealobj(var):
         raise vexc(vname + ' must be real')
-    if var <= 0:
+    if not var > 0:
         raise vexc(vname + ' must be positive')
     return var
 
@@ -242,7 +242,7 @@ def real_nonnegative_scalar(var, vname, vexc):
         raise vexc(vname + ' must be scalar')
     if not np.isrealobj(var):
         raise vexc(vname + ' must be real')
-    if var < 0:
+    if not var >= 0:
         raise vexc(vname + ' must be nonnegative')
     return var
 
-- 
2.43.0


From a211692048e7b6a61082a2ca4cd012d7ca813b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 48/93] fix: parameter checks raise the given exception for
 values that are no arrays

---
 corgidrp/check.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/corgidrp/check.py b/corgidrp/check.py
index 13cb32f..bf37ef2 100644
--- a/corgidrp/check.py
+++ b/corgidrp/check.py
@@ -47,6 +47,25 @@ def _checkexc(vexc):
     pass
 
 
+def _castarray(var, vname, vexc):
+    """
+    Internal cast to a numpy array, for objects that may not be castable to one
+
+    Args:
+    var: variable to cast
+    vname: string to output in case of error for debugging
+    vexc: Exception to raise in case of error for debugging
+
+    Returns:
+        np.array: var as an array
+
+    """
+    try:
+        return np.asarray(var)
+    except (ValueError, TypeError) as e:
+        raise vexc(vname + ' must be castable to an array') from e
+
+
 def real_positive_scalar(var, vname, vexc):
     """
     Checks whether an object is a real positive scalar.
@@ -88,7 +107,7 @@ def real_array(var, vname, vexc):
     _checkname(vname)
     _checkexc(vexc)
 
-    var = np.asarray(var) # cast to array
+    var = _castarray(var, vname, vexc) # cast to array
     if len(var.shape) == 0:
         raise vexc(vname + ' must have length > 0')
     if not np.isrealobj(var):
@@ -115,7 +134,7 @@ def oneD_array(var, vname, vexc):
     _checkname(vname)
     _checkexc(vexc)
 
-    var = np.asarray(var) # cast to array
+    var = _castarray(var, vname, vexc) # cast to array
     if len(var.shape) != 1:
         raise vexc(vname + ' must be a 1D array')
     if (not np.isrealobj(var)) and (not np.iscomplexobj(var)):
@@ -139,7 +158,7 @@ def twoD_array(var, vname, vexc):
     _checkname(vname)
     _checkexc(vexc)
 
-    var = np.asarray(var) # cast to array
+    var = _castarray(var, vname, vexc) # cast to array
     if len(var.shape) != 2:
         raise vexc(vname + ' must be a 2D array')
     if (not np.isrealobj(var)) and (not np.iscomplexobj(var)):
@@ -163,7 +182,7 @@ def twoD_square_array(var, vname, vexc):
     _checkname(vname)
     _checkexc(vexc)
 
-    var = np.asarray(var) # cast to array
+    var = _castarray(var, vname, vexc) # cast to array
     if len(var.shape) != 2:
         raise vexc(vname + ' must be a 2D array')
     else: # is 2-D
@@ -190,7 +209,7 @@ def threeD_array(var, vname, vexc):
     _checkname(vname)
     _checkexc(vexc)
 
-    var = np.asarray(var) # cast to array
+    var = _castarray(var, vname, vexc) # cast to array
     if len(var.shape) != 3:
         raise vexc(vname + ' must be a 3D array')
     if (not np.isrealobj(var)) and (not np.iscomplexobj(var)):
-- 
2.43.0


From fbb92417099e779e15ecd839c25ae93600496979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 49/93] fix: the default Gaussian fit window has an odd size
 for any image shape

---
 corgidrp/fluxcal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index 8eaea3e..aecd9c7 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -396,7 +396,8 @@ def phot_by_gauss2d_fit(image, fwhm, fit_shape=None, background_sub=False, r_in=
     err[err == 0] = np.finfo(np.float32).eps
 
     if fit_shape is None:
-        fit_shape = image.data.shape[0] - 1
+        # the largest odd shape within the image
+        fit_shape = tuple(n - 1 + n % 2 for n in image.data.shape)
 
     psf_phot = fit_2dgaussian(dat, xypos=pos, fwhm=fwhm, fit_shape=fit_shape,
                               mask=image.dq.astype(bool), error=err)
-- 
2.43.0


From 3673c8ab52c128f37e6c55d19602acde1c12809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 50/93] fix: flux calibration does not modify the header of the
 input image

---
 corgidrp/fluxcal.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index aecd9c7..263c203 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -480,12 +480,10 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
     
     if flux_or_irr == 'flux':
         flux = calculate_band_flux(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
+        bunit = 'erg/(s * cm^2 * AA)/(electron/s)'
     elif flux_or_irr == 'irr':
         flux = calculate_band_irradiance(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
+        bunit = 'erg/(s * cm^2)/(electron/s)'
     else:
         raise ValueError("Invalid flux method. Choose 'flux' or 'irr'.")
     
@@ -501,10 +499,12 @@ def calibrate_fluxcal_aper(dataset_or_image, flux_or_irr = 'flux', phot_kwargs=N
     fluxcal_obj = corgidrp.data.FluxcalFactor(
         np.array([[fluxcal_fac]]),
         err=np.array([[[fluxcal_fac_err]]]),
-        pri_hdr=image.pri_hdr,
-        ext_hdr=image.ext_hdr,
+        pri_hdr=image.pri_hdr.copy(),
+        ext_hdr=image.ext_hdr.copy(),
         input_dataset=dataset
     )
+    fluxcal_obj.ext_hdr['BUNIT'] = bunit
+    fluxcal_obj.err_hdr['BUNIT'] = bunit
 
     # If background subtraction was performed, set the LOCBACK keyword.
     if phot_kwargs.get('background_sub', False):
@@ -579,12 +579,10 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
     
     if flux_or_irr == 'flux':
         flux = calculate_band_flux(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2 * AA)/(electron/s)'
+        bunit = 'erg/(s * cm^2 * AA)/(electron/s)'
     elif flux_or_irr == 'irr':
         flux = calculate_band_irradiance(filter_trans, flux_ref, wave)
-        image.ext_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
-        image.err_hdr['BUNIT'] = 'erg/(s * cm^2)/(electron/s)'
+        bunit = 'erg/(s * cm^2)/(electron/s)'
     else:
         raise ValueError("Invalid flux method. Choose 'flux' or 'irr'.")
     
@@ -599,10 +597,12 @@ def calibrate_fluxcal_gauss2d(dataset_or_image, flux_or_irr = 'flux', phot_kwarg
     fluxcal_obj = corgidrp.data.FluxcalFactor(
         np.array([[fluxcal_fac]]),
         err=np.array([[[fluxcal_fac_err]]]),
-        pri_hdr=image.pri_hdr,
-        ext_hdr=image.ext_hdr,
+        pri_hdr=image.pri_hdr.copy(),
+        ext_hdr=image.ext_hdr.copy(),
         input_dataset=dataset
     )
+    fluxcal_obj.ext_hdr['BUNIT'] = bunit
+    fluxcal_obj.err_hdr['BUNIT'] = bunit
     
     # If background subtraction was performed, set the LOCBACK keyword.
     if phot_kwargs.get('background_sub', False):
-- 
2.43.0


From e8af3678e2061ad1f00c40f880deb2e37bfeaa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 51/93] fix: zero points are computed from the flux of the
 aperture photometry

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 913e9f5..c24c0ca 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -531,7 +531,7 @@ def calculate_zero_point(image, star_name, encircled_radius, phot_kwargs=None):
     app_mag = mag_dataset[0].ext_hdr["APP_MAG"]
 
     # Compute zero point using real measured photons
-    ap_sum = fluxcal.aper_phot(image, encircled_radius, **phot_kwargs, centering_initial_guess=None)
+    ap_sum, *_ = fluxcal.aper_phot(image, encircled_radius, **phot_kwargs, centering_initial_guess=None)
     zp = app_mag + 2.5 * np.log10(ap_sum)
 
     return zp
\ No newline at end of file
-- 
2.43.0


From f6c71b8cdf6e1ecdd64ff3dceb0ff3f2c380830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 52/93] fix: ND filter calibration does not modify the headers
 of the input

---
 corgidrp/nd_filter_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0a97c93..0fbf55e 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -329,8 +329,8 @@ def create_nd_sweet_spot_dataset(aggregated_sweet_spot_data, common_metadata, od
     final_sweet_spot_data = aggregated_sweet_spot_data.copy()
 
     # Build the NDFilterSweetSpotDataset, use info from last/ most recent
-    pri_hdr = input_dataset[-1].pri_hdr
-    ext_hdr = input_dataset[-1].ext_hdr
+    pri_hdr = input_dataset[-1].pri_hdr.copy()
+    ext_hdr = input_dataset[-1].ext_hdr.copy()
 
     # keeping the common metadata because if you do provide dim stars as part of the dataset
     # and grab the last header you might get the FPAM info of a frame with no ND filter in.
-- 
2.43.0


From 988710f45ffec1a07b2f0f4579a8f78f2c3ecbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 53/93] fix: the OD variation flag is set when any star varies

---
 corgidrp/nd_filter_calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 0fbf55e..8733c5c 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -469,6 +469,7 @@ def create_nd_filter_cal(stars_dataset,
     # 3. Process bright star frames
     grouped_files = group_by_keyword(bright_stars_dataset, prihdr_keyword='TARGET', exthdr_keyword=None)
     flux_results = {}
+    od_var_flag = False
     aggregated_data_list = []
     common_metadata = {}
 
@@ -481,7 +482,8 @@ def create_nd_filter_cal(stars_dataset,
                                           phot_kwargs)
         flux_results[target] = star_data
 
-        od_var_flag = star_data['flag']
+        # the product is flagged if the OD of any target varies too much
+        od_var_flag = bool(od_var_flag or star_data['flag'])
 
         # Convert to Nx3 array [OD, x, y]
         target_sweet_spot = np.column_stack((
-- 
2.43.0


From 848b7ed5fa6f333cbad80b1f142b967121d47a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 54/93] fix: ND calibration with a given calibration factor
 needs no dim stars

---
 corgidrp/nd_filter_calibration.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 8733c5c..56f047b 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -452,7 +452,6 @@ def create_nd_filter_cal(stars_dataset,
             dim_stars_dataset.extend(records)
 
     bright_stars_dataset = Dataset(bright_stars_dataset)
-    dim_stars_dataset = Dataset(dim_stars_dataset)
 
 
     # 2. If a fluxcal factor was provided, use that for the dim stars
-- 
2.43.0


From 0b45968b14e7fb103bb9b814f11c3238c9ad008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 55/93] fix: ND calibration compares band fluxes when asked for
 fluxes

---
 corgidrp/nd_filter_calibration.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/corgidrp/nd_filter_calibration.py b/corgidrp/nd_filter_calibration.py
index 56f047b..3a05208 100644
--- a/corgidrp/nd_filter_calibration.py
+++ b/corgidrp/nd_filter_calibration.py
@@ -99,16 +99,19 @@ def interpolate_od(sweet_spot_data, x_query, y_query, method='linear'):
 # Flux Calibration Helpers
 # =============================================================================
 
-def compute_expected_band_irradiance(star_name, filter_name):
+def compute_expected_band_irradiance(star_name, filter_name, flux_or_irr="irr"):
     """
-    Compute the expected band-integrated irradiance (erg/(s*cm^2)) for a given star.
+    Compute the expected band-integrated irradiance (erg/(s*cm^2)) for a given star, or its
+    average band flux (erg/(s*cm^2*AA)).
 
     Parameters:
         star_name (str): The name of the star for which to compute the irradiance.
         filter_name (str): The name of the filter used to determine the transmission curve.
+        flux_or_irr (str): Whether the flux ('flux') or in-band irradiance ('irr') is returned.
 
     Returns:
-        float: The computed band-integrated irradiance in erg/(s*cm^2).
+        float: The computed band-integrated irradiance in erg/(s*cm^2), or the average band 
+            flux in erg/(s*cm^2*AA).
     
     Raises:
         ValueError: If no matching filter curve file is found.
@@ -122,6 +125,8 @@ def compute_expected_band_irradiance(star_name, filter_name):
     filter_filename = os.path.join(datadir, filter_files[0])
     wave, transmission = fluxcal.read_filter_curve(filter_filename)
     calspec_flux = fluxcal.read_cal_spec(calspec_filepath, wave)
+    if flux_or_irr == 'flux':
+        return fluxcal.calculate_band_flux(transmission, calspec_flux, wave)
     return fluxcal.calculate_band_irradiance(transmission, calspec_flux, wave)
 
 
@@ -223,7 +228,7 @@ def _compute_od_for_file(entry, target, phot_method, phot_kwargs, ref_fpam_name,
 
 
 def process_bright_target(target, files, cal_factor, od_raster_threshold,
-                          phot_method="Aperture", phot_kwargs=None):
+                          phot_method="Aperture", phot_kwargs=None, flux_or_irr="irr"):
     """
     Process bright star files for one target to compute optical density (OD)
     and (x, y) centroids for each dithered observation.
@@ -239,6 +244,7 @@ def process_bright_target(target, files, cal_factor, od_raster_threshold,
         od_raster_threshold (float): Threshold for flagging OD variations.
         phot_method (str): Photometry method to use ("Aperture" or "Gaussian").
         phot_kwargs (dict, optional): Dictionary of keyword arguments to forward to the photometry function.
+        flux_or_irr (str): Whether cal_factor is for the flux ('flux') or in-band irradiance ('irr').
     
     Returns:
         dict: A dictionary containing computed OD values, centroids, and other metadata.
@@ -259,7 +265,7 @@ def process_bright_target(target, files, cal_factor, od_raster_threshold,
         cal_factor_value = cal_factor
 
     # Compute expected flux
-    expected_irradiance_no_nd = compute_expected_band_irradiance(target, ref_cfam_name)
+    expected_irradiance_no_nd = compute_expected_band_irradiance(target, ref_cfam_name, flux_or_irr)
     expected_flux = expected_irradiance_no_nd / cal_factor_value
 
     od_values, x_values, y_values = [], [], []
@@ -478,7 +484,7 @@ def create_nd_filter_cal(stars_dataset,
         print(f"Processing bright target files: {target}")
         star_data = process_bright_target(target, files, cal_factor,
                                           od_raster_threshold, phot_method,
-                                          phot_kwargs)
+                                          phot_kwargs, flux_or_irr)
         flux_results[target] = star_data
 
         # the product is flagged if the OD of any target varies too much
-- 
2.43.0


From 554900ca58e8056fc8e2c690b794fe217fc5416b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 56/93] fix: find_source builds its detection mask on the grid
 of the given PSF

---
 corgidrp/l4_to_tda.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index c24c0ca..d0bf685 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -447,13 +447,17 @@ def find_source(input_image, psf=None, fwhm=2.8, nsigma_threshold=5.0,
 
     new_image = input_image.copy()
     
-    # Ensure an odd-sized box for PSF convolution
-    boxsize = int(fwhm * 3)
-    boxsize += 1 if boxsize % 2 == 0 else 0 # Ensure an odd box size
+    if psf is None:
+        # Ensure an odd-sized box for PSF convolution
+        boxsize = int(fwhm * 3)
+        boxsize += 1 if boxsize % 2 == 0 else 0 # Ensure an odd box size
+        psf_shape = (boxsize, boxsize)
+    else:
+        psf_shape = psf.shape
     
     # Create coordinate grids
-    y, x = np.indices((boxsize, boxsize))
-    y -= boxsize // 2 ; x -= boxsize // 2
+    y, x = np.indices(psf_shape)
+    y -= psf_shape[0] // 2 ; x -= psf_shape[1] // 2
     
     if psf is None:
         sigma = fwhm / (2.0 * np.sqrt(2.0 * np.log(2))) # Convert FWHM to sigma
-- 
2.43.0


From 7a458fb08433ded182514cfb3154fd9e0804238d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 57/93] fix: find_source ends when the highest S/N equals the
 threshold

---
 corgidrp/l4_to_tda.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index d0bf685..9102119 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -475,20 +475,19 @@ def find_source(input_image, psf=None, fwhm=2.8, nsigma_threshold=5.0,
     sn_source, xy_source = [], []
        
     # Iteratively detect sources above the SNR threshold
-    while np.nanmax(image_snmap) >= nsigma_threshold:
+    while np.nanmax(image_snmap) > nsigma_threshold:
 
         sn = np.nanmax(image_snmap)
         xy = np.unravel_index(np.nanargmax(image_snmap), image_snmap.shape)
         
-        if sn > nsigma_threshold:
-            sn_source.append(sn)
-            xy_source.append(xy)
-
-            # Scale and subtract the detected PSF from the image
-            image_residual = psf_scalesub(image_residual, xy, psf, fwhm)
-                
-            # Update the SNR map after source removal
-            image_snmap = make_snmap(image_residual, psf_binarymask, image_without_planet=image_without_planet)
+        sn_source.append(sn)
+        xy_source.append(xy)
+
+        # Scale and subtract the detected PSF from the image
+        image_residual = psf_scalesub(image_residual, xy, psf, fwhm)
+            
+        # Update the SNR map after source removal
+        image_snmap = make_snmap(image_residual, psf_binarymask, image_without_planet=image_without_planet)
         
     # Store detected sources in FITS header
     for i in range(len(sn_source)):
-- 
2.43.0


From 980d988dba8528940e5d2e67fb19d0b10b9cc9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 58/93] fix: find_source subtracts PSFs that reach over the
 image edge

---
 corgidrp/find_source.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/corgidrp/find_source.py b/corgidrp/find_source.py
index b3f7020..3d3ce0e 100644
--- a/corgidrp/find_source.py
+++ b/corgidrp/find_source.py
@@ -60,14 +60,17 @@ def psf_scalesub(image, xy, psf, fwhm):
     # Mask central region of the PSF
     idx_masked = np.where( (distance_map < fwhm*1.0) )
 
+    # The part of the PSF that falls on the image
+    y0 = xy[0] - psf.shape[0] // 2 ; x0 = xy[1] - psf.shape[1] // 2
+    y_psf = slice(max(0, -y0), min(psf.shape[0], image.shape[0] - y0))
+    x_psf = slice(max(0, -x0), min(psf.shape[1], image.shape[1] - x0))
+    y_image = slice(y0 + y_psf.start, y0 + y_psf.stop)
+    x_image = slice(x0 + x_psf.start, x0 + x_psf.stop)
+
     # Scale PSF to match local flux and subtract it
-    psf_window = psf.shape[0] // 2
-    psf_scaled = psf * np.nanmedian(image[
-        xy[0]-psf_window:xy[0]+psf_window+1,
-        xy[1]-psf_window:xy[1]+psf_window+1] / psf)
+    psf_scaled = psf * np.nanmedian(image[y_image, x_image] / psf[y_psf, x_psf])
     psf_scaled[idx_masked] = np.nan # Apply masking
     
-    image[xy[0]-psf_window:xy[0]+psf_window+1,
-          xy[1]-psf_window:xy[1]+psf_window+1] -= psf_scaled
+    image[y_image, x_image] -= psf_scaled[y_psf, x_psf]
     
-    return image
\ No newline at end of file
+    return image
-- 
2.43.0


From 32c3b695fc3550d0aa26af83435bb44a46011a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 59/93] fix: flux ratio noise uses default separations and
 half-width of each frame

---
 corgidrp/l4_to_tda.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 9102119..925fed2 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -216,9 +216,12 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         klip_fwhms = frame.hdu_list['KL_THRU'].data[1:,:,1]
         min_sep = np.max([np.min(klip_seps), np.min(ct_seps)])
         max_sep = np.min([np.max(klip_seps), np.max(ct_seps)])
+        # each frame has its own default separations
         if requested_separations is None:
-            requested_separations = klip_seps
-        if np.any(requested_separations < min_sep) or np.any(requested_separations > max_sep):
+            seps = klip_seps
+        else:
+            seps = requested_separations
+        if np.any(seps < min_sep) or np.any(seps > max_sep):
             warnings.warn('Not all requested_separations are within the range of the separations used for the KLIP and core throughputs.  Extrapolation will be used.')
         ct_spacings = ct_seps - np.roll(ct_seps, 1)
         # ignore the meaningless first entry (b/c of looping around with np.roll)
@@ -228,11 +231,13 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         min_klip_spacing = np.min(klip_spacings[1:])
         min_spacing = np.min([min_ct_spacing, min_klip_spacing])
         if halfwidth is None:
-            halfwidth = min_spacing/2
-        check.real_positive_scalar(halfwidth, 'halfwidth', ValueError)
-        if halfwidth > min_spacing/2:
+            hw = min_spacing/2
+        else:
+            hw = halfwidth
+        check.real_positive_scalar(hw, 'halfwidth', ValueError)
+        if hw > min_spacing/2:
             warnings.warn('Halfwidth is wider than half the minimum spacing between separation values.')
-        annular_noise = measure_noise(frame, requested_separations, halfwidth) # in photoelectrons/s
+        annular_noise = measure_noise(frame, seps, hw) # in photoelectrons/s
         # now need to get Fp/Fs
         # For star flux, Fs:  integrated flux of star modeled as analytic formula for volume under 2-D Gaussian defined 
         # by amplitude and FWHM used for KLIP throughput calculation.  Amplitude found by doing Gaussian fit.
@@ -294,21 +299,21 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         # same FWHM used for KLIP throughput calculation.  The analytic formula for volume under the Gaussian is the integrated flux.
         noise_amp = annular_noise.T
         # interpolate FWHMs to use based on requested_separations
-        interp_fwhms = np.zeros((len(klip_fwhms), len(requested_separations)))
+        interp_fwhms = np.zeros((len(klip_fwhms), len(seps)))
         for j in range(len(klip_fwhms)):
             fwhms_func = interp1d(klip_seps, klip_fwhms[j], kind='linear', fill_value='extrapolate')
-            interp_fwhms[j] = fwhms_func(requested_separations)
+            interp_fwhms[j] = fwhms_func(seps)
 
         Fp = np.pi*noise_amp*interp_fwhms**2/(4*np.log(2)) #integral of 2-D Gaussian
         # Interpolate/extrapolate the algorithm and core throughputs at the desired separations
         klip_interp_func = interp1d(klip_seps, klip_tp, kind='linear', fill_value='extrapolate')
-        klip_tp = klip_interp_func(requested_separations)
+        klip_tp = klip_interp_func(seps)
         ct_interp_func = interp1d(ct_seps, core_tp, kind='linear', fill_value='extrapolate')
-        core_tp = ct_interp_func(requested_separations)
+        core_tp = ct_interp_func(seps)
         frn_vals = (Fp/Fs)/(klip_tp*core_tp)
         # include row for separations in milli-arcseconds (mas)
-        requested_mas = requested_separations * pixscale_mas
-        flux_ratio_noise_curve = np.vstack([requested_separations, requested_mas, frn_vals])
+        requested_mas = seps * pixscale_mas
+        flux_ratio_noise_curve = np.vstack([seps, requested_mas, frn_vals])
         hdr = fits.Header()
         hdr['BUNIT'] = "Fp/Fs"
         hdr['COMMENT'] = "Flux ratio noise curve as a function of radial separation.  First row:  separation radii in pixels.  Second row:  separation radii in mas.  Remaining rows:  flux ratio noise curve values for KL mode truncations."
-- 
2.43.0


From 57032338ee66eaf93a855fa418bfdf8869a2cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 60/93] fix: flux ratio noise starts the star fit at (x, y)
 instead of (row, column)

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 925fed2..4e7e9cf 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -281,7 +281,7 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         median_col = closest_indices[1][highest_density_index]
         fwhm_guess = 2*np.sqrt((median_row-guess_row)**2 + (median_col-guess_col)**2)
 
-        psf_phot = fit_2dgaussian(data, xypos=pos, fit_shape=fit_shape, fwhm=fwhm_guess, fix_fwhm=False,
+        psf_phot = fit_2dgaussian(data, xypos=(guess_col, guess_row), fit_shape=fit_shape, fwhm=fwhm_guess, fix_fwhm=False,
                                 mask=mask, error=None)
         star_xs = psf_phot.results['x_fit']
         star_ys = psf_phot.results['y_fit']
-- 
2.43.0


From 08b98fd55be7c18d9d0295b7eb5e70d63dea4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 61/93] fix: flux ratio noise accepts non-integer star
 positions

---
 corgidrp/l4_to_tda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 4e7e9cf..53f01c7 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -263,7 +263,7 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         mask = star_fr.dq.astype(bool)[:row_shape, :col_shape]
         guess_row, guess_col = pos
         # Get the value at the max_row and max_col position
-        half_value = data[guess_row, guess_col] / 2
+        half_value = data[int(np.round(guess_row)), int(np.round(guess_col))] / 2
         # Calculate the absolute difference from half_value for all pixels
         abs_diff = np.abs(data - half_value)
         # Get the indices of the 20 smallest differences
-- 
2.43.0


From 66998b1d70b396759681d95f994b73b20ba059c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 62/93] fix: KLIP throughput is listed in the order of the
 requested separations

---
 corgidrp/klip_fm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/klip_fm.py b/corgidrp/klip_fm.py
index 9a77ad8..b7d534b 100644
--- a/corgidrp/klip_fm.py
+++ b/corgidrp/klip_fm.py
@@ -501,7 +501,7 @@ def meas_klip_thrupt(sci_dataset_in,ref_dataset_in, # pre-psf-subtracted dataset
         mean_outfwhms = []
         # TODO: If no measurements available for a given sep
         # show warning and add np.nan 
-        for sep in np.unique(seps_arr):
+        for sep in seps:
             this_sep_thrupts = np.where(seps_arr==sep,this_klmode_thrupts,np.nan)
             mean_thrupt = np.nanmedian(this_sep_thrupts)
             mean_thrupts.append(mean_thrupt)
-- 
2.43.0


From b211a62f9acf52f29edfcd51211d1ef9f1e23748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 63/93] fix: the calibration database keeps the exact values of
 the registered headers

---
 corgidrp/caldb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index f8e4426..c686bd5 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -85,7 +85,7 @@ class CalDB:
         """
         Load/update db from filepath
         """
-        self._db = pd.read_csv(self.filepath, dtype=column_dtypes)
+        self._db = pd.read_csv(self.filepath, dtype=column_dtypes, float_precision="round_trip")
 
     def save(self):
         """
-- 
2.43.0


From e1e06c9d73d518bf60844d1c953a86916bfb431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 64/93] fix: autogen_recipe does not modify the template it is
 given

---
 corgidrp/walker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 4204983..b1e7a44 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -1,4 +1,5 @@
 import os
+import copy
 import json
 import astropy.time as time
 import warnings
@@ -148,7 +149,7 @@ def autogen_recipe(filelist, outputdir, template=None):
     recipe_list = []
     for template in recipe_template_list:
         # create the personalized recipe
-        recipe = template.copy()
+        recipe = copy.deepcopy(template) # don't modify the template
         recipe["template"] = False
 
         for filename in filelist:
-- 
2.43.0


From 02628709d34c707f26b9a3e34e0d7ed28138a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 65/93] fix: recipes without an optional calibration can be
 used as templates and resolved just in time

---
 corgidrp/walker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index b1e7a44..f9ff3c2 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -203,7 +203,8 @@ def _fill_in_calib_files(step, this_caldb, ref_frame):
     for calib in step["calibs"]:
         # order matters, so only one calibration file per dictionary
 
-        if "AUTOMATIC" in step["calibs"][calib].upper():
+        # (a calibration that is None is one the step runs without)
+        if step["calibs"][calib] is not None and "AUTOMATIC" in step["calibs"][calib].upper():
             calib_dtype = data.datatypes[calib]
 
             # try to look up the best calibration, but it could raise an error
-- 
2.43.0


From 92dd235b3474b96a3c3b0d06f636246ebf7c264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:24 +0000
Subject: [PATCH 66/93] fix: templates may leave out the outputdir of
 dark_subtraction

---
 corgidrp/walker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index f9ff3c2..c1bc41b 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -170,7 +170,7 @@ def autogen_recipe(filelist, outputdir, template=None):
                 _fill_in_calib_files(step, this_caldb, first_frame)
 
             if step["name"].lower() == "dark_subtraction":
-                if step["keywords"]["outputdir"].upper() == "AUTOMATIC":
+                if str(step.get("keywords", {}).get("outputdir")).upper() == "AUTOMATIC":
                     step["keywords"]["outputdir"] = recipe["outputdir"]
 
         recipe_list.append(recipe)
-- 
2.43.0


From 068846104fcc2d64d247a2e198fbccce64ff284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 67/93] fix: the l2b_to_l4 template gives do_psf_subtraction
 the core throughput calibration it needs

---
 corgidrp/recipe_templates/l2b_to_l4.json | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/corgidrp/recipe_templates/l2b_to_l4.json b/corgidrp/recipe_templates/l2b_to_l4.json
index a12a3d5..8126b64 100644
--- a/corgidrp/recipe_templates/l2b_to_l4.json
+++ b/corgidrp/recipe_templates/l2b_to_l4.json
@@ -32,7 +32,10 @@
             "name": "find_star"
         },
         {
-            "name": "do_psf_subtraction"
+            "name": "do_psf_subtraction",
+            "calibs": {
+                "CoreThroughputCalibration": "AUTOMATIC"
+            }
         },
         {
             "name": "update_to_l4",
-- 
2.43.0


From 619c823af3ff0be64814e2013ca45e6eb74973a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 68/93] fix: flag_nans keeps the flags that are already set

---
 corgidrp/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index 77b3c0d..ab428b0 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -608,6 +608,7 @@ def flag_nans(dataset,flag_val=1):
 
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
-    dataset_out.all_dq[bad] = flag_val
+    # keep the flags that are already set
+    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad].astype(np.uint16), flag_val)
 
     return dataset_out
-- 
2.43.0


From 5c61e1679006815654bcea6e8f15831bc7a60f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 69/93] fix: copies of an Image without its data do not share
 extra extensions with the original

---
 corgidrp/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 968df93..61787e5 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -509,8 +509,8 @@ class Image():
             for attr, value in vars(self).items():
                 if isinstance(value, fits.Header):
                     setattr(new_img, attr, value.copy())
-            # copy the hdu_list and hdu_names list, but not their pointers
-            new_img.hdu_list = self.hdu_list.copy()
+            # copy the hdu_list and hdu_names list, and the (small) extensions in it
+            new_img.hdu_list = fits.HDUList([hdu.copy() for hdu in self.hdu_list])
             new_img.hdu_names = copy.copy(self.hdu_names)
 
         # update DRP version tracking
-- 
2.43.0


From ad521a13f245a6961a7915d8fa2bb057a4591083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 70/93] fix: boresight_calibration does not add history to the
 input dataset

---
 corgidrp/astrom.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index e502e66..9622e47 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1171,8 +1171,6 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     history_msg = "Boresight calibration completed"
     astrom_cal_dataset = corgidrp.data.Dataset([avg_cal])
     astrom_cal_dataset.update_after_processing_step(history_msg)
-    ## history message should be added to the input dataset(?)
-    input_dataset.update_after_processing_step(history_msg)
 
     return avg_cal
 
-- 
2.43.0


From e6409193e7812628e3282047ebe6327b0f667bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 71/93] fix: do_psf_subtraction gives integer data-quality
 flags

---
 corgidrp/l3_to_l4.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 1d2d78b..f1a9313 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -541,7 +541,7 @@ def do_psf_subtraction(input_dataset,
 
     # TODO: Handle errors correctly
     err = np.zeros([1,*pyklip_data.shape])
-    dq = np.zeros_like(pyklip_data) # This will get filled out later
+    dq = np.zeros(pyklip_data.shape, dtype=np.uint16) # This will get filled out later
 
     # Collapse sci_dataset headers
     pri_hdr = sci_dataset[0].pri_hdr.copy()
-- 
2.43.0


From 6f43f9879d19029231176f3dd851f9bbe909ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 72/93] fix: the settings of a recipe are in effect only while
 that recipe runs

---
 corgidrp/walker.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index c1bc41b..5df8879 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -1,5 +1,6 @@
 import os
 import copy
+import functools
 import json
 import astropy.time as time
 import warnings
@@ -347,6 +348,30 @@ def save_data(dataset_or_image, outputdir, suffix=""):
 
 
 
+def _restore_settings(func):
+    """
+    Decorator that restores the pipeline settings after the function, so that the
+    settings of a recipe are only in effect while that recipe runs
+
+    Args:
+        func (function): function that may change pipeline settings
+
+    Returns:
+        function: the same function, leaving the pipeline settings unchanged
+    """
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        names = ["caldb_filepath", "default_cal_dir", "track_individual_errors", "skip_missing_cal_steps", "jit_calib_id"]
+        settings = {name: getattr(corgidrp, name) for name in names}
+        try:
+            return func(*args, **kwargs)
+        finally:
+            for name in names:
+                setattr(corgidrp, name, settings[name])
+    return wrapper
+
+
+@_restore_settings
 def run_recipe(recipe, save_recipe_file=True):
     """
     Run the specified recipe
-- 
2.43.0


From 337f446ed0d8aa579366b023b641a3b83454b759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:57 +0000
Subject: [PATCH 73/93] fix: a step whose just-in-time calibration is missing
 is skipped instead of run without it

---
 corgidrp/walker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/walker.py b/corgidrp/walker.py
index 5df8879..2ffcdd6 100644
--- a/corgidrp/walker.py
+++ b/corgidrp/walker.py
@@ -448,6 +448,10 @@ def run_recipe(recipe, save_recipe_file=True):
                     for frame in list_of_frames:
                         frame.ext_hdr["RECIPE"] = json.dumps(recipe)
 
+                    # a missing calibration may have caused this step to be skipped
+                    if "skip" in step and step["skip"]:
+                        continue
+
 
                 # load the calibration files in from disk
                 for calib in step["calibs"]:
-- 
2.43.0


From 34b01d3424b99fbaa7f5cf43d634300f1fbdcfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:12 +0000
Subject: [PATCH 74/93] fix: the core throughputs attached by
 do_psf_subtraction are for the star's place on the detector

---
 corgidrp/l3_to_l4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index f1a9313..55bc393 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -627,7 +627,8 @@ def do_psf_subtraction(input_dataset,
         else:
             seps = np.array([5.,10.,15.,20.,25.,30.,35.])
 
-        ct_1d = get_1d_ct(ct_calibration,dataset_out[0],seps)
+        # where the star was on the detector; the PSF-subtracted image was recentered on it
+        ct_1d = get_1d_ct(ct_calibration,sci_dataset[0],seps)
 
         ct_hdr = fits.Header()
         # Core throughput values on EXCAM wrt pixel (0,0) (not a "CT map", which is
-- 
2.43.0


From c32dac83916b89e8958ae544e622839e2be22a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:39 +0000
Subject: [PATCH 75/93] fix: split_dataset keeps frames with undefined keyword
 values and does not convert values to a common type

---
 corgidrp/data.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 61787e5..07e78c7 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -213,28 +213,22 @@ class Dataset():
         if prihdr_keywords is None and exthdr_keywords is None:
             raise ValueError("No prihdr or exthdr keywords passed in to split dataset")
 
-        col_names = []
         col_vals = []
         if prihdr_keywords is not None:
             for key in prihdr_keywords:
                 dataset_vals = [frame.pri_hdr[key] for frame in self.frames]
-
-                col_names.append(key)
                 col_vals.append(dataset_vals)
 
         if exthdr_keywords is not None:
             for key in exthdr_keywords:
                 dataset_vals = [frame.ext_hdr[key] for frame in self.frames]
-
-                col_names.append(key)
                 col_vals.append(dataset_vals)
 
-        all_data = np.array(col_vals).T
-
-        # track all combinations
-        df = pd.DataFrame(data=all_data, columns=col_names)
+        # track all combinations. each keyword keeps its own values (they are not turned into a common type),
+        # and frames with an undefined value of a keyword are also part of a group
+        df = pd.DataFrame({i: pd.Series(vals, dtype=object) for i, vals in enumerate(col_vals)})
 
-        grouped = df.groupby(col_names)
+        grouped = df.groupby(list(df.columns), dropna=False)
 
         unique_vals = list(grouped.indices.keys()) # each unique set of values
         split_datasets = []
-- 
2.43.0


From fef4bdcd1f16c3204cc7e18226f1efb9ac5b216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 76/93] fix: updates of a dataset and error terms are not
 truncated to the integer type of the existing arrays

---
 corgidrp/data.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/corgidrp/data.py b/corgidrp/data.py
index 07e78c7..7c97333 100644
--- a/corgidrp/data.py
+++ b/corgidrp/data.py
@@ -108,7 +108,13 @@ class Dataset():
         if new_all_data is not None:
             if new_all_data.shape != self.all_data.shape:
                 raise ValueError("The shape of new_all_data is {0}, whereas we are expecting {1}".format(new_all_data.shape, self.all_data.shape))
-            self.all_data[:] = new_all_data # specific operation overwrites the existing data rather than changing pointers
+            if np.can_cast(new_all_data.dtype, self.all_data.dtype, casting="same_kind"):
+                self.all_data[:] = new_all_data # specific operation overwrites the existing data rather than changing pointers
+            else:
+                # the existing data (e.g., integers) can't hold the new values
+                self.all_data = new_all_data.copy()
+                for i in range(len(self.frames)):
+                    self.frames[i].data = self.all_data[i]
         if new_all_err is not None:
             if new_all_err.shape[-2:] != self.all_err.shape[-2:] or new_all_err.shape[0] != self.all_err.shape[0]:
                 raise ValueError("The shape of new_all_err is {0}, whereas we are expecting {1}".format(new_all_err.shape, self.all_err.shape))
@@ -118,7 +124,13 @@ class Dataset():
         if new_all_dq is not None:
             if new_all_dq.shape != self.all_dq.shape:
                 raise ValueError("The shape of new_all_dq is {0}, whereas we are expecting {1}".format(new_all_dq.shape, self.all_dq.shape))
-            self.all_dq[:] = new_all_dq # specific operation overwrites the existing data rather than changing pointers
+            if np.array_equal(new_all_dq.astype(self.all_dq.dtype), new_all_dq):
+                self.all_dq[:] = new_all_dq # specific operation overwrites the existing data rather than changing pointers
+            else:
+                # the existing dq (e.g., 8 bit integers) can't hold the new flags
+                self.all_dq = new_all_dq.copy()
+                for i in range(len(self.frames)):
+                    self.frames[i].dq = self.all_dq[i]
 
         # update history and header entries
         for img in self.frames:
@@ -397,6 +409,10 @@ class Image():
             self.dq_hdr = fits.Header()
         self.dq_hdr["EXTNAME"] = "DQ"
 
+        # uncertainties are not whole numbers in general, so make sure that terms can be added without truncating them
+        if not np.issubdtype(self.err.dtype, np.inexact):
+            self.err = self.err.astype(float)
+
         # discard individual errors if we aren't tracking them but multiple error terms are passed in
         if not corgidrp.track_individual_errors and self.err.shape[0] > 1:
             num_errs = self.err.shape[0] - 1
-- 
2.43.0


From 98db8accf60db92bc87e09c9a3b2551ef43e9b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:49 +0000
Subject: [PATCH 77/93] fix: flag_nans keeps the flags above the sixteenth bit

---
 corgidrp/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index ab428b0..ad6d694 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -609,6 +609,6 @@ def flag_nans(dataset,flag_val=1):
     # mask bad pixels
     bad = np.isnan(dataset_out.all_data)
     # keep the flags that are already set
-    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad].astype(np.uint16), flag_val)
+    dataset_out.all_dq[bad] = np.bitwise_or(dataset_out.all_dq[bad].astype(np.int64), flag_val)
 
     return dataset_out
-- 
2.43.0


From 5b69c7b352a86c64b5f0641897a47da4eb4733a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:40 +0000
Subject: [PATCH 78/93] fix: cosmic rays are also found in data read from FITS
 files

---
 corgidrp/detector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/corgidrp/detector.py b/corgidrp/detector.py
index ad6d694..a5c2b06 100644
--- a/corgidrp/detector.py
+++ b/corgidrp/detector.py
@@ -532,7 +532,9 @@ def find_plateaus(streak_row, fwc, sat_thresh, plat_thresh, cosm_filter):
     # Lowpass filter row to differentiate plateaus from standalone pixels
     # The way median_filter works, it will find cosmics that are cosm_filter-1
     # wide. Add 1 to cosm_filter to correct for this
-    filtered = median_filter(streak_row, cosm_filter+1, mode='nearest')
+    # (median_filter needs the native byte order, which data read from FITS files doesn't have)
+    native_row = streak_row.astype(streak_row.dtype.newbyteorder('='))
+    filtered = median_filter(native_row, cosm_filter+1, mode='nearest')
     saturated = (filtered >= sat_thresh*fwc).nonzero()[0]
 
     if len(saturated) > 0:
-- 
2.43.0


From 376ad157430a2c2016c13f70661acaf3b9144914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:51 +0000
Subject: [PATCH 79/93] fix: desmear does not truncate the smear of integer
 data

---
 corgidrp/l2a_to_l2b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l2a_to_l2b.py b/corgidrp/l2a_to_l2b.py
index 782b7a6..6d85c20 100644
--- a/corgidrp/l2a_to_l2b.py
+++ b/corgidrp/l2a_to_l2b.py
@@ -404,7 +404,7 @@ def desmear(input_dataset, detector_params):
     """
 
     data = input_dataset.copy()
-    data_cube = data.all_data
+    data_cube = data.all_data + 0. # also whole numbers are desmeared by fractions
 
     rowreadtime_sec = detector_params.params['ROWREADT']
 
-- 
2.43.0


From 3d6869cc92d03b7a9c41444e3848e9505b866ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 80/93] fix: saturation levels are not truncated to the integer
 type of the data

---
 corgidrp/l1_to_l2a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/l1_to_l2a.py b/corgidrp/l1_to_l2a.py
index 3bec01f..ba585a9 100644
--- a/corgidrp/l1_to_l2a.py
+++ b/corgidrp/l1_to_l2a.py
@@ -248,7 +248,7 @@ def detect_cosmic_rays(input_dataset, detector_params, k_gain = None, sat_thresh
         frame.ext_hdr['FWC_EM_E'] = fwcem_e_arr[i]
         frame.ext_hdr['SAT_DN'] = sat_fwcs[i]
 
-    sat_fwcs_array = np.array([np.full_like(crmasked_cube[0],sat_fwcs[i]) for i in range(len(sat_fwcs))])
+    sat_fwcs_array = np.array([np.full(crmasked_cube[0].shape,sat_fwcs[i]) for i in range(len(sat_fwcs))])
 
     # threshold the frame to catch any values above sat_fwc --> this is
     # mask 1
-- 
2.43.0


From a55fa9fc850e3bded623b3893d9f6e9b7bedbe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 81/93] fix: the distortion map can be computed for combined
 frames

---
 corgidrp/astrom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 9622e47..37ee9ed 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1146,7 +1146,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
     # compute the distortion map coeffs
     if find_distortion:
         # use the found matches for distortion
-        first_stars, offsets, true_offsets, errs = format_distortion_inputs(input_dataset, source_matches=hold_matches, ref_star_pos=target_coord_tables, position_error=position_error)
+        first_stars, offsets, true_offsets, errs = format_distortion_inputs(dataset, source_matches=hold_matches, ref_star_pos=target_coord_tables, position_error=position_error)
         mean_xy_platescale = np.mean([avg_platescale_x, avg_platescale_y])
         distortion_coeffs, order = compute_distortion(input_dataset, first_stars, offsets, true_offsets, errs, platescale=mean_xy_platescale, northangle=avg_northangle, fitorder=fitorder, initial_guess=initial_dist_guess)
     else:
-- 
2.43.0


From 94cdc7609e9fd356af4baf82a66c88fec11c98de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:20 +0000
Subject: [PATCH 82/93] fix: the distortion map is fitted to the measured
 places of the stars instead of to offsets from a fit at another place

---
 corgidrp/astrom.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 37ee9ed..9d0028c 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -902,7 +902,8 @@ def format_distortion_inputs(input_dataset, source_matches, ref_star_pos, positi
         input_dataset (corgidrp.data.dataset): corgidrp dataset object with images to compute the distortion from
         source_matches (list of astropy.table.Table() objects): List of length N for N frames in the input dataset. Tables must columns 'x','y','RA','DEC' as pixel locations and corresponding sky positons
         ref_star_pos (list of astropy.table.Table() objects): List of length N for N frames. Tables must have column names 'x', 'y', 'RA', 'DEC' for the position of the reference position to compute pairs with
-        position_error (NoneType or int): If int, this is the uniform error value assumed for the offset between pairs of stars in both x and y
+        position_error (NoneType or int): If int, this is the uniform error value assumed for the offset between pairs of stars in both x and y,
+                        if None, an error of one pixel is assumed for all pairs
                         Should be changed later to accept non-uniform errors
         
     Returns:
@@ -919,8 +920,6 @@ def format_distortion_inputs(input_dataset, source_matches, ref_star_pos, positi
 
     ## Loop over every frame in the dataset
     for frame_ind in range(len(input_dataset)):
-        input_image = input_dataset[frame_ind].data
-
         # create all combinations of the target star with all others
         combo_list = range(len(source_matches[frame_ind]))
         skycoords = SkyCoord(ra= source_matches[frame_ind]['RA'], dec= source_matches[frame_ind]['DEC'], unit='deg', frame='icrs')
@@ -931,10 +930,9 @@ def format_distortion_inputs(input_dataset, source_matches, ref_star_pos, positi
             star1 = ref_star_pos[frame_ind]
             star2 = source_matches[frame_ind][pair_ind]
     
-            x_guess = star2['x'] - star1['x']
-            y_guess = star2['y'] - star1['y']
-        
-            (dx, dy), (xfit_err, yfit_err, _) = measure_offset(input_image, star2['x'], star2['y'], x_guess, y_guess, guessflux=10000)
+            # (the reference position is not that of a star, so there is no psf to fit the star with)
+            dx = star2['x'] - star1['x']
+            dy = star2['y'] - star1['y']
     
             # get the true sky offset [mas]
             true1 = target_coord
@@ -952,8 +950,9 @@ def format_distortion_inputs(input_dataset, source_matches, ref_star_pos, positi
             pas = np.append(pas, true_pa)
     
             if type(position_error) == type(None):
-                xerrs = np.append(xerrs, xfit_err)
-                yerrs = np.append(yerrs, yfit_err)
+                # all pairs have the same weight
+                xerrs = np.append(xerrs, 1)
+                yerrs = np.append(yerrs, 1)
             else:
                 xerrs = np.append(xerrs, position_error)
                 yerrs = np.append(yerrs, position_error)
-- 
2.43.0


From eb361fb7276d21372722a1955b0358be5cde2b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:59 +0000
Subject: [PATCH 83/93] fix: a new calibration database also gets the default
 calibrations that already exist

---
 corgidrp/caldb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/corgidrp/caldb.py b/corgidrp/caldb.py
index c686bd5..6891efa 100644
--- a/corgidrp/caldb.py
+++ b/corgidrp/caldb.py
@@ -370,7 +370,8 @@ def initialize():
     global initialized
 
     ### Create set of default calibrations
-    rescan_needed = False
+    # a new database does not have the default calibrations yet
+    rescan_needed = not os.path.exists(corgidrp.caldb_filepath)
     # Add default detector_params calibration file if it doesn't exist
     if not os.path.exists(os.path.join(corgidrp.default_cal_dir, "DetectorParams_2023-11-01T00:00:00.000.fits")):
         default_detparams = data.DetectorParams({}, date_valid=time.Time("2023-11-01 00:00:00", scale='utc'))
-- 
2.43.0


From 2a1158d14d35c5061302b40501c098236909d60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:50 +0000
Subject: [PATCH 84/93] fix: the default centre of create_circular_mask is that
 of the image also when it is not square

---
 corgidrp/astrom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 9d0028c..bed71dc 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1179,7 +1179,7 @@ def create_circular_mask(shape_yx, center=None, r=None):
 
     Args:
         shape_yx (list-like of int): 
-        center (list of float, optional): Center of mask. Defaults to the 
+        center (list of float, optional): Center of mask (x, y). Defaults to the 
             center of the array.
         r (float, optional): radius of mask. Defaults to the minimum distance 
             from the center to the edge of the array.
@@ -1189,9 +1189,9 @@ def create_circular_mask(shape_yx, center=None, r=None):
     """
     shape_yx = np.array(shape_yx)
     if center is None: # use the middle of the image
-        center = (shape_yx-1) / 2
+        center = (shape_yx[::-1]-1) / 2
     if r is None: # use the smallest distance between the center and image walls
-        r = min(center[0], center[1], shape_yx[0]-center[0], shape_yx[1]-center[1])
+        r = min(center[0], center[1], shape_yx[1]-center[0], shape_yx[0]-center[1])
 
     Y, X = np.ogrid[:shape_yx[0], :shape_yx[1]]
     dist_from_center = np.sqrt((X - center[0])**2 + (Y-center[1])**2)
-- 
2.43.0


From 8b36d87c5726bd87c80edc4d9deeadf7d7e9e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:44 +0000
Subject: [PATCH 85/93] fix: the boresight calibration also works on images
 with bad (NaN) pixels

---
 corgidrp/astrom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index bed71dc..86cae42 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -123,6 +123,10 @@ def measure_offset(frame, xstar_guess, ystar_guess, xoffset_guess, yoffset_guess
         binary_offset (np.array): List of [x,y] offsets in respective directions
         fit_errs (np.array): Array of [x,y] fitting errors
     """
+    # bad pixels are NaN, which the spline interpolation would spread over the
+    # whole image; mask them as the gaussian fits do
+    frame = np.where(np.isnan(frame), 0, frame)
+
     #### Centroid on location of star ###
     yind = int(ystar_guess)
     xind = int(xstar_guess)
-- 
2.43.0


From 63af7f64ecbaa7903e3dfd749245fbe034469a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:06 +0000
Subject: [PATCH 86/93] fix: find_star also works on images with bad (NaN)
 pixels

---
 corgidrp/l3_to_l4.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/corgidrp/l3_to_l4.py b/corgidrp/l3_to_l4.py
index 55bc393..f8d2a27 100644
--- a/corgidrp/l3_to_l4.py
+++ b/corgidrp/l3_to_l4.py
@@ -228,8 +228,14 @@ def find_star(input_dataset,
     sat_spot_dataset = data.Dataset(sat_spot_frames)
 
     # Compute median images
-    img_ref = np.median(sci_dataset.all_data, axis=0)
-    img_sat_spot = np.median(sat_spot_dataset.all_data, axis=0)
+    # (bad pixels are NaN; those that are bad in all frames don't contribute)
+    with warnings.catch_warnings():
+        warnings.filterwarnings('ignore', 'All-NaN slice encountered')
+        img_ref = np.nanmedian(sci_dataset.all_data, axis=0)
+        img_sat_spot = np.nanmedian(sat_spot_dataset.all_data, axis=0)
+    bad_pixels = np.isnan(img_ref) | np.isnan(img_sat_spot)
+    img_ref[bad_pixels] = 0
+    img_sat_spot[bad_pixels] = 0
 
     # Default star_coordinate_guess to center of img_sat_spot if None
     if star_coordinate_guess is None:
-- 
2.43.0


From 5414fcaab4e943921daad5cb3b8fdb33d50276d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:18 +0000
Subject: [PATCH 87/93] fix: centroids and core throughputs leave out bad (NaN)
 pixels instead of becoming NaN or 0

---
 corgidrp/astrom.py         | 7 ++++---
 corgidrp/corethroughput.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index 86cae42..a47f2b4 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -70,13 +70,14 @@ def centroid_with_roi(frame, roi_radius=5, centering_initial_guess=None):
     x_indices += x_min
 
     # 4) Compute flux-weighted centroid in the subarray
-    total_flux = np.sum(sub_frame)
+    # (bad pixels, which are NaN, don't contribute)
+    total_flux = np.nansum(sub_frame)
     if total_flux == 0:
         # Edge case: empty or zero frame
         return peak_x, peak_y
 
-    xcen = np.sum(x_indices * sub_frame) / total_flux
-    ycen = np.sum(y_indices * sub_frame) / total_flux
+    xcen = np.nansum(x_indices * sub_frame) / total_flux
+    ycen = np.nansum(y_indices * sub_frame) / total_flux
 
     return xcen, ycen
 
diff --git a/corgidrp/corethroughput.py b/corgidrp/corethroughput.py
index 05fe131..1228199 100644
--- a/corgidrp/corethroughput.py
+++ b/corgidrp/corethroughput.py
@@ -140,7 +140,7 @@ def get_psf_ct(
     """
     psf_ct = []
     for psf in dataset:
-        psf_ct += [psf.data[psf.data >= psf.data.max()/2].sum()/unocc_psf_norm]
+        psf_ct += [psf.data[psf.data >= np.nanmax(psf.data)/2].sum()/unocc_psf_norm]
     psf_ct = np.array(psf_ct, dtype=float)
 
     return psf_ct
@@ -206,7 +206,7 @@ def estimate_psf_pix_and_ct(
     # mean combine the total values (photo-electrons/sec) of the pupil images
     unocc_psf_norm = 0
     for frame in pupil_img_frames:
-        unocc_psf_norm += frame.data.sum()
+        unocc_psf_norm += np.nansum(frame.data)
     unocc_psf_norm /= len(pupil_img_frames)
     # Transform pupil counts into direct imaging counts. Recall all frames have
     # the same cfam filter or an Exception is raised
-- 
2.43.0


From 944246c10922640822cd59fe896b59c63022f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 88/93] fix: frames with bad (NaN) pixels can be combined in
 the boresight calibration and used for the flux ratio noise

---
 corgidrp/astrom.py    | 2 +-
 corgidrp/l4_to_tda.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index a47f2b4..f8c07b3 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -1091,7 +1091,7 @@ def boresight_calibration(input_dataset, field_path='JWST_CALFIELD2020.csv', fie
                 sub_array = data_array[count - frames_to_combine: count]
                 file_name = input_dataset[count].filename
 
-            comb = np.mean(sub_array, axis=0)
+            comb = np.nanmean(sub_array, axis=0)
             im = corgidrp.data.Image(comb, pri_hdr=input_dataset[count - frames_to_combine].pri_hdr.copy(), ext_hdr=input_dataset[0].ext_hdr.copy())
             im.filename = file_name
             image_objects.append(im)
diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index 53f01c7..fbfff29 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -243,7 +243,7 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
         # by amplitude and FWHM used for KLIP throughput calculation.  Amplitude found by doing Gaussian fit.
         star_fr = unocculted_star_dataset.frames[i]
         if unocculted_star_loc is None:
-            peak_row, peak_col = np.where(star_fr.data == star_fr.data.max())
+            peak_row, peak_col = np.where(star_fr.data == np.nanmax(star_fr.data))
             pos = (peak_row[0], peak_col[0])
         else:
             pos = (unocculted_star_loc[0][i], unocculted_star_loc[1][i])
-- 
2.43.0


From 2435905adff6a26e686936c0c64e0bdc49cd0c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:26 +0000
Subject: [PATCH 89/93] fix: the search of the star's position from satellite
 spots does not run away from a guess that is some pixels off

---
 corgidrp/star_center.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/corgidrp/star_center.py b/corgidrp/star_center.py
index 635a08a..a6f96f0 100644
--- a/corgidrp/star_center.py
+++ b/corgidrp/star_center.py
@@ -762,6 +762,12 @@ def calc_star_location_from_spots(spotArray, xOffsetGuess, yOffsetGuess, tuningP
         xOffsetEst, yOffsetEst = find_optimum_2d(
             xOffsetVec, yOffsetVec, costFuncMat, np.ones_like(costFuncMat)
         )
+        # The paraboloid doesn't hold outside of the grid (and its extremum may
+        # be a minimum), so continue from the best grid point in that case
+        if not (xOffsetVec[0] <= xOffsetEst <= xOffsetVec[-1]
+                and yOffsetVec[0] <= yOffsetEst <= yOffsetVec[-1]):
+            iyBest, ixBest = np.unravel_index(np.argmax(costFuncMat), costFuncMat.shape)
+            xOffsetEst, yOffsetEst = xOffsetVec[ixBest], yOffsetVec[iyBest]
 
     # estimates are w.r.t. initial guess. Return, "from the center pixel"
     return xOffsetEst + xOffsetGuess, yOffsetEst + yOffsetGuess
-- 
2.43.0


From 0be5a441134f6b7ea4c9dc8277664b787a5e8a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:58 +0000
Subject: [PATCH 90/93] fix: Gaussian fits to stars leave out bad (NaN) pixels
 instead of failing

---
 corgidrp/fluxcal.py   | 6 +++++-
 corgidrp/l4_to_tda.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/corgidrp/fluxcal.py b/corgidrp/fluxcal.py
index 263c203..5b798d4 100644
--- a/corgidrp/fluxcal.py
+++ b/corgidrp/fluxcal.py
@@ -391,6 +391,10 @@ def phot_by_gauss2d_fit(image, fwhm, fit_shape=None, background_sub=False, r_in=
         back = bkg(dat, pos[0], pos[1], mask=image.dq.astype(bool))
         dat -= back
 
+    # bad pixels (NaN) are left out of the fit
+    mask = image.dq.astype(bool) | np.isnan(dat)
+    dat[np.isnan(dat)] = 0
+
     # fit_2dgaussian: error weighting raises exception if error is zero
     err = image.err[0].copy()
     err[err == 0] = np.finfo(np.float32).eps
@@ -400,7 +404,7 @@ def phot_by_gauss2d_fit(image, fwhm, fit_shape=None, background_sub=False, r_in=
         fit_shape = tuple(n - 1 + n % 2 for n in image.data.shape)
 
     psf_phot = fit_2dgaussian(dat, xypos=pos, fwhm=fwhm, fit_shape=fit_shape,
-                              mask=image.dq.astype(bool), error=err)
+                              mask=mask, error=err)
     flux = psf_phot.results['flux_fit'][0]
     flux_err = psf_phot.results['flux_err'][0]
 
diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index fbfff29..b0a9e12 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -260,7 +260,9 @@ def compute_flux_ratio_noise(input_dataset, NDcalibration, unocculted_star_datas
             col_shape = star_fr.data.shape[1]
         fit_shape = (row_shape, col_shape)
         data = star_fr.data[:row_shape, :col_shape]
-        mask = star_fr.dq.astype(bool)[:row_shape, :col_shape]
+        # bad pixels (NaN) are left out of the fit
+        mask = star_fr.dq.astype(bool)[:row_shape, :col_shape] | np.isnan(data)
+        data = np.where(np.isnan(data), 0, data)
         guess_row, guess_col = pos
         # Get the value at the max_row and max_col position
         half_value = data[int(np.round(guess_row)), int(np.round(guess_col))] / 2
-- 
2.43.0


From 4fa5ba0eb9de50bb3efbdeac1286d629ad1376e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:08 +0000
Subject: [PATCH 91/93] fix: pixels without a valid value (NaN) in the dark or
 flat do not hide bad pixels

---
 corgidrp/bad_pixel_calibration.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/corgidrp/bad_pixel_calibration.py b/corgidrp/bad_pixel_calibration.py
index d128ed4..bbd9f75 100644
--- a/corgidrp/bad_pixel_calibration.py
+++ b/corgidrp/bad_pixel_calibration.py
@@ -77,7 +77,8 @@ def detect_hot_warm_pixels_from_dark(dark, dthresh):
 
     # Process dark frame
     fixedbp_dark = np.zeros(dark.shape).astype('bool')
-    fixedbp_dark[dark > np.mean(dark) + dthresh*np.std(dark)] = True
+    # (pixels without a valid value, which are NaN, don't count)
+    fixedbp_dark[dark > np.nanmean(dark) + dthresh*np.nanstd(dark)] = True
 
     return fixedbp_dark
 
@@ -127,7 +128,10 @@ def detect_dead_pixels_from_flat(flat, ffrac, fwidth):
             # rind/cind removes indices that fall out of flat
             subflat = flat[tmpr[rind], :][:, tmpc[cind]]
 
-            localm = np.mean(subflat)
+            # (pixels without a valid value, which are NaN, don't count)
+            if np.isnan(flat[r, c]):
+                continue
+            localm = np.nanmean(subflat)
             if flat[r, c] < ffrac*localm:
                 fixedbp_flat[r, c] = True
                 pass
-- 
2.43.0


From c2e4ef466149ca15813eb8b36ce6589b80903122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:41 +0000
Subject: [PATCH 92/93] fix: the conversion to flux uses each frame's own color
 correction

---
 corgidrp/l4_to_tda.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/corgidrp/l4_to_tda.py b/corgidrp/l4_to_tda.py
index b0a9e12..db810f3 100644
--- a/corgidrp/l4_to_tda.py
+++ b/corgidrp/l4_to_tda.py
@@ -151,11 +151,11 @@ def convert_to_flux(input_dataset, fluxcal_factor):
     flux_dataset = input_dataset.copy()
     flux_cube = flux_dataset.all_data
     flux_error = flux_dataset.all_err
-    if "COL_COR" in flux_dataset[0].ext_hdr:
-        color_cor_fac = flux_dataset[0].ext_hdr['COL_COR']
-    else: 
+    if not all("COL_COR" in frame.ext_hdr for frame in flux_dataset):
         warnings.warn("There is no COL_COR keyword in the header, color correction was not done, it is set to 1")
-        color_cor_fac = 1
+    # each frame has its own color correction
+    color_cor_fac = np.array([frame.ext_hdr.get('COL_COR', 1) for frame in flux_dataset])
+    color_cor_fac = color_cor_fac.reshape((-1,) + (1,) * (flux_cube.ndim - 1))
     factor = fluxcal_factor.fluxcal_fac/color_cor_fac
     factor_error = fluxcal_factor.fluxcal_err/color_cor_fac
     error_frame = flux_cube * factor_error
@@ -163,8 +163,8 @@ def convert_to_flux(input_dataset, fluxcal_factor):
     
     #scale also the old error with the flux_factor and propagate the error 
     # err = sqrt(err_flux^2 * flux_fac^2 + fluxfac_err^2 * flux^2)
-    factor_2d = np.ones(np.shape(flux_dataset[0].data)) * factor #TODO 2D should not be necessary anymore after improve_err is merged
-    flux_dataset.rescale_error(factor_2d, "fluxcal_factor")
+    factor_3d = np.ones(np.shape(flux_cube)) * factor #TODO 3D should not be necessary anymore after improve_err is merged
+    flux_dataset.rescale_error(factor_3d, "fluxcal_factor")
     flux_dataset.add_error_term(error_frame, "fluxcal_error")
 
     history_msg = "data converted to flux unit erg/(s * cm^2 * AA) by fluxcal_factor {0} plus color correction".format(fluxcal_factor.fluxcal_fac)
-- 
2.43.0


From 3fc7eeb9b99fb04879e409f78d4eb1423a830843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:38 +0000
Subject: [PATCH 93/93] fix: the north angle is measured about the centre of
 images that are not square too

---
 corgidrp/astrom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/corgidrp/astrom.py b/corgidrp/astrom.py
index f8c07b3..2bcf23f 100644
--- a/corgidrp/astrom.py
+++ b/corgidrp/astrom.py
@@ -781,7 +781,7 @@ def compute_platescale_and_northangle(image, source_info, center_coord, center_r
     # find the pixel position angles
     pa_pixel = np.empty(len(sub_guesses))
     for i, (x, y) in enumerate(zip(xs, ys)):
-        pa = angle_between(((np.shape(image)[0]-1)//2, (np.shape(image)[1]-1)//2), (x,y))
+        pa = angle_between(((np.shape(image)[1]-1)//2, (np.shape(image)[0]-1)//2), (x,y))
         pa_pixel[i] = pa
 
     # find the difference between the measured and true positon angles
-- 
2.43.0

