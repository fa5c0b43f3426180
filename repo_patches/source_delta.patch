From 3db2f6e567394f55de91fcee17620df5a6304ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 01/40] fix: avoid unsigned wrap-around when subtracting a dark

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 483d9aa..2fd1d24 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -387,7 +387,7 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        self.data = self.data - dark.data
+        self.data = np.subtract(self.data, dark.data, dtype=float)
         self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
         self._dark_subtracted = True
-- 
2.43.0


From e750c43f31d76c7f7a6196deb751e674f123212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 02/40] fix: replace the removed np.float alias in spline
 demosaicing

---
 micropolarray/processing/demosaic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demosaic.py b/micropolarray/processing/demosaic.py
index 841699e..2232981 100644
--- a/micropolarray/processing/demosaic.py
+++ b/micropolarray/processing/demosaic.py
@@ -144,7 +144,7 @@ def demosaic(image_data, option="adjacent"):
     elif option == "spline":
         single_pol_subimages = np.array(
             [image_data[j::2, i::2] for j in range(2) for i in range(2)],
-            dtype=np.float,
+            dtype=float,
         )
         demo_images = [
             congrid(
-- 
2.43.0


From ce891a7f5e2a596a3a0c639d17536f2a396f16fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 03/40] fix: replace the removed np.float alias when reading a
 calibration flat

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d97a0ff..bbada28 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -371,7 +371,7 @@ def calculate_demodulation_tensor(
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = np.array(file[0].data, dtype=np.float)
+            flat = np.array(file[0].data, dtype=float)
         if correct_ifov:
             flat = _ifov_jitcorrect(flat, *flat.shape)
         flat = micropolarray_rebin(flat, binning)
-- 
2.43.0


From 005a3eb880643ad62c68169de2e76634bfcebdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 04/40] fix: copy data, header and Stokes images when copying a
 MicropolImage

---
 micropolarray/micropol_image.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 2fd1d24..7ed150a 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -121,16 +121,18 @@ class MicropolImage(Image):
         self.demosaiced_images = None
 
     def _import_image_parameters(self, image: MicropolImage):
-        self.data = image.data
-        self.header = image.header
+        self.header = image.header.copy()
+        self.data = image.data.copy()
         self.angle_dic = image.angle_dic
-        self.Stokes_vec = image.Stokes_vec
+        self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
-        self.demosaiced_images = image.demosaiced_images
+        self.demosaiced_images = None
+        if image.demosaiced_images is not None:
+            self.demosaiced_images = np.array(image.demosaiced_images)
 
     # ----------------------------------------------------------------
     # -------------------- POLARIZATION PROPERTIES -------------------
-- 
2.43.0


From bf4f23ae8ef9cbbd73913ee7d95da809b1d05c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 05/40] fix: do not share the header between operands and
 results of image arithmetic

---
 micropolarray/micropol_image.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 7ed150a..e6a29bd 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -1012,7 +1012,7 @@ class MicropolImage(Image):
             newdata = self.data + second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1034,7 +1034,7 @@ class MicropolImage(Image):
             newdata = self.data - second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1056,7 +1056,7 @@ class MicropolImage(Image):
             newdata = self.data * second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1078,7 +1078,7 @@ class MicropolImage(Image):
             newdata = np.divide(self.data, second, where=second != 0.0)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
-- 
2.43.0


From 591c1ded0c7c2aed50bdabb9366c07f693adf905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 06/40] fix: do not rotate the Stokes images of the original
 image in place

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index e6a29bd..7239bc9 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -903,7 +903,7 @@ class MicropolImage(Image):
             single_pols[i] = np.asarray(image, dtype=float)
         data = merge_polarizations(single_pols)
 
-        Stokes_vec = self.Stokes_vec
+        Stokes_vec = self.Stokes_vec.copy()
         for i in range(3):
             image = PILImage.fromarray(Stokes_vec[i])
             image = image.rotate(angle)
-- 
2.43.0


From 030a575f76fabcbde37de651ad17c52a1dceaf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 07/40] fix: demosaic again when the data of a demosaiced image
 changes

---
 micropolarray/micropol_image.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 7239bc9..f17665f 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -115,6 +115,7 @@ class MicropolImage(Image):
         self._data = None
         self._is_demodulated = False
         self._is_demosaiced = False
+        self._demosaic_mode = "adjacent"
         self._binning = 1
         self._flat_subtracted = False
         self._dark_subtracted = False
@@ -127,6 +128,7 @@ class MicropolImage(Image):
         self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
+        self._demosaic_mode = image._demosaic_mode
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
@@ -235,6 +237,10 @@ class MicropolImage(Image):
     def _update_data_and_Stokes(self, newdata: np.ndarray = None):
         if newdata is not None:
             self.data = newdata
+            if self._is_demosaiced:
+                self.demosaiced_images = demosaic(
+                    self.data, option=self._demosaic_mode
+                )
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
     def demodulate(
@@ -390,8 +396,9 @@ class MicropolImage(Image):
             MicropolImage: copy of input image with dark subtracted
         """
         self.data = np.subtract(self.data, dark.data, dtype=float)
-        self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes(
+            np.where(self.data >= 0, self.data, 0)
+        )  # Fix data
         self._dark_subtracted = True
         return self
 
@@ -406,7 +413,7 @@ class MicropolImage(Image):
         """
         normalized_flat = flat.data / np.mean(flat.data)
 
-        self.data = np.divide(
+        corrected_data = np.divide(
             self.data,
             normalized_flat,
             where=normalized_flat != 0.0,
@@ -414,7 +421,7 @@ class MicropolImage(Image):
 
         # self.data = np.where(self.data >= 0, self.data, 0)
         # self.data = np.where(self.data < 4096, self.data, 4096)
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes(corrected_data)
         self._flat_subtracted = True
         return self
 
@@ -818,6 +825,7 @@ class MicropolImage(Image):
 
         self.demosaiced_images = demosaic(self.data, option=demosaic_mode)
         self._is_demosaiced = True
+        self._demosaic_mode = demosaic_mode
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
         return self
-- 
2.43.0


From 0ce0ae088e1ebdad70841554d59ede3024607670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 08/40] fix: keep pixels of zero flat instead of leaving them
 uninitialized

---
 micropolarray/micropol_image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index f17665f..d73a972 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -416,6 +416,7 @@ class MicropolImage(Image):
         corrected_data = np.divide(
             self.data,
             normalized_flat,
+            out=np.array(self.data, dtype=float),
             where=normalized_flat != 0.0,
         )
 
-- 
2.43.0


From 7f29b4012b86e5bb4322c7d2408aa1781c5aacda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 09/40] fix: set quotients with zero divisor to 0 instead of
 leaving them uninitialized

---
 micropolarray/image.py          | 14 ++++++++++++--
 micropolarray/micropol_image.py | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 052f85a..8e60ed5 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -297,7 +297,17 @@ class Image:
 
     def __truediv__(self, second) -> Image:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0)
+            newdata = np.divide(
+                self.data,
+                second.data,
+                out=np.zeros(self.data.shape, dtype=float),
+                where=second.data != 0,
+            )
         else:
-            newdata = np.divide(self.data, second, where=second != 0)
+            newdata = np.divide(
+                self.data,
+                second,
+                out=np.zeros(self.data.shape, dtype=float),
+                where=second != 0,
+            )
         return Image(newdata)
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index d73a972..087348d 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -1080,11 +1080,21 @@ class MicropolImage(Image):
 
     def __truediv__(self, second) -> MicropolImage:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0.0)
+            newdata = np.divide(
+                self.data,
+                second.data,
+                out=np.zeros(self.data.shape, dtype=float),
+                where=second.data != 0.0,
+            )
             newimage = MicropolImage(self)
             newimage._update_data_and_Stokes(newdata)
         else:
-            newdata = np.divide(self.data, second, where=second != 0.0)
+            newdata = np.divide(
+                self.data,
+                second,
+                out=np.zeros(self.data.shape, dtype=float),
+                where=second != 0.0,
+            )
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
         newimage.header = self.header.copy()
-- 
2.43.0


From da6a11516b1c93641c730afd6e02ec426b7afc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 10/40] fix: update the Stokes images through the existing
 method in get_hot_pixels

---
 micropolarray/processing/image_cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 0d64869..8989a1a 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -17,7 +17,7 @@ def get_hot_pixels(image, threshold=100):
     # diff = np.where(diff > threshold, 1, 0)
 
     newimage = MicropolImage(image)
-    newimage._set_data_and_Stokes(merge_polarizations(diff))
+    newimage._update_data_and_Stokes(merge_polarizations(diff))
 
     return newimage
 
-- 
2.43.0


From 35d9304a63ab70389ab3dc3d97967f8fd8632a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 11/40] fix: apply the default radii of roi_from_polar before
 unpacking them

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index 5bdf4e9..ecf247d 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -35,7 +35,6 @@ def roi_from_polar(
     """
     height, width = data.shape
     theta_min, theta_max = theta
-    rho_min, rho_max = rho
     if center is None:
         center = [int(height / 2), int(width / 2)]
     else:
@@ -44,6 +43,7 @@ def roi_from_polar(
     if rho is None:
         rho_max = np.min([height - center[0], width - center[1]])
         rho = [0.0, rho_max]
+    rho_min, rho_max = rho
 
     if include_superpixels:
         # make a map that is HALF THE SIZE, do condition, then resize to make all the superpixel outside selection
-- 
2.43.0


From eb2a9b41f5477af866e69e6f2c857734cc33884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 12/40] fix: honour zero limits when clamping data

---
 micropolarray/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index f9bdf34..c835433 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -53,7 +53,7 @@ def sigma_DN(pix_DN):
 
 
 def fix_data(data: np.array, min, max):
-    if not (min and max):
+    if min is None or max is None:
         return data
     fixed_data = data.copy()
     fixed_data = np.where(fixed_data > min, fixed_data, min)
-- 
2.43.0


From 56a96c83b823e0eed6dbf20e86c335db093989e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 13/40] fix: convert raw files in folders and names with dots
 beside the raw file

---
 micropolarray/processing/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 351bc3a..3e562f2 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -204,7 +204,7 @@ def convert_rawfile_to_fits(
     data = np.ndarray(shape=(height, width), dtype="<u2", buffer=buffer)
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
-    new_filename = os.path.pathsep.join(filename.split(".")[:-1]) + ".fits"
+    new_filename = os.path.splitext(filename)[0] + ".fits"
     HDU.writeto(new_filename, overwrite=True)
     info(f'Image successfully saved to "{new_filename}".')
 
-- 
2.43.0


From 25d85303e99c0521c50d51a58c056b7c038db090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 14/40] fix: keep trailing zero bytes of the chunks of a binary
 file

---
 micropolarray/processing/convert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 3e562f2..9f0701e 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -54,9 +54,9 @@ def nparr_from_binary(filename):
     if chunk_size % 1 or (chunk_size / 3) % 1:
         raise ValueError("Indivisible by chunks")
     chunk_size = int(chunk_size)
-    splitted = np.array(
-        [filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)]
-    )
+    splitted = [
+        filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)
+    ]
     with mp.Pool(processes=chunks_n) as p:
         result = p.map(three_bytes_to_two_ints, splitted)
     newarr = np.array(result).reshape((1952, 1952))
-- 
2.43.0


From f775d735b4934212b4a132f3e2cba496d8590c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 15/40] fix: take the file name from the list when a single
 file name is given

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 8e60ed5..d6f617c 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -108,7 +108,7 @@ class Image:
             tempfilename[-1] = "SUM_" + tempfilename[-1]
             self.filename = os.path.sep.join(tempfilename)
         else:
-            self.filename = filenames[0]
+            self.filename = filenames_list[0]
 
     def _init_image_from_image(self, image: Image):
         self.data = image.data.copy()
-- 
2.43.0


From f48483161616281fb6550ff64933ce51a079e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 16/40] fix: accept subclasses of Image as initializers

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index d6f617c..557f92e 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -29,7 +29,7 @@ class Image:
         elif type(initializer) is np.ndarray:
             self._init_image_from_data(initializer)
             self.new_data = initializer
-        elif type(initializer) is Image:
+        elif isinstance(initializer, Image):
             self._init_image_from_image(initializer)
 
     def _init_image_from_data(self, input_data: np.array) -> None:
-- 
2.43.0


From 4e009b4baead08296b117347d71c7a93fdd7977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 17/40] fix: allow demosaicing demodulation without fit flags

---
 micropolarray/micropol_image.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 087348d..8e44275 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -328,9 +328,10 @@ class MicropolImage(Image):
                     mij[i, j, :, :] = merge_polarizations(
                         np.repeat(demo_component[np.newaxis, :, :], 4, axis=0)
                     )  # repeat necessary to avoid numba problems
-            fit_found_flags = merge_polarizations(
-                np.array(4 * [demodulator.fit_found_flags.astype(float)])
-            )  # idk why but fit_found_flags is >f8 as default
+            if fit_found_flags is not None:
+                fit_found_flags = merge_polarizations(
+                    np.array(4 * [demodulator.fit_found_flags.astype(float)])
+                )  # idk why but fit_found_flags is >f8 as default
         else:
             mij = demodulator.mij
             splitted_pols = self.single_pol_subimages
-- 
2.43.0


From 8e247cbcef7df35ca8d3cba5d90394f069dcb427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 18/40] fix: refuse worker grids that do not tile the
 calibration images

---
 micropolarray/processing/demodulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index bbada28..916b0e1 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -494,6 +494,10 @@ def calculate_demodulation_tensor(
     # parallelize into a procs_per_size x procs_per_size grid
     info("Splitting into subdomains to parallelize...")
     chunks_n_y, chunks_n_x = procs_grid
+    if (height % chunks_n_y) or (width % chunks_n_x):
+        raise ValueError(
+            f"cant decompose a {height}x{width} image into a {procs_grid[0]}x{procs_grid[1]} grid. Try changing the number of processors."
+        )
     chunk_size_y = int(height / chunks_n_y)
     chunk_size_x = int(width / chunks_n_x)
     if (chunk_size_x % 2) or (chunk_size_y % 2):
-- 
2.43.0


From c05c260dab24932894bbcd5e03e2076d07ef94fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 19/40] fix: propagate AoLP errors where Q is 0

---
 micropolarray/processing/demodulation_errors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation_errors.py b/micropolarray/processing/demodulation_errors.py
index 6df8ef3..adc4199 100644
--- a/micropolarray/processing/demodulation_errors.py
+++ b/micropolarray/processing/demodulation_errors.py
@@ -78,8 +78,8 @@ def get_error_on_AoLP(S: np.ndarray, sigma_S: np.ndarray) -> np.ndarray:
     I, Q, U = S
     sigma_I, sigma_Q, sigma_U = sigma_S
 
-    aolp_var = (sigma_U * sigma_U + sigma_Q * sigma_Q * U * U / (Q * Q)) / (
-        4 * Q * Q * (1 + (U * U / (Q * Q))) * (1 + (U * U / (Q * Q)))
+    aolp_var = (Q * Q * sigma_U * sigma_U + U * U * sigma_Q * sigma_Q) / (
+        4 * (Q * Q + U * U) * (Q * Q + U * U)
     )
 
     return np.sqrt(aolp_var)
-- 
2.43.0


From 43ab42533d8ee3c54e1c84aedafd51da93505504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 20/40] fix: keep the fractional part in the Chen-Wan-Liang
 correction of integer images

---
 micropolarray/processing/chen_wan_liang_calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index b601251..0286169 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -271,8 +271,8 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
     height, width = data.shape
     C_ij = np.zeros(shape=(4, 4, height, width))
     d_ij = np.zeros_like(data)
-    corrected_data = np.zeros_like(data)
-    ifov_corrected_data = np.zeros_like(data)
+    corrected_data = np.zeros_like(data, dtype=float)
+    ifov_corrected_data = np.zeros_like(data, dtype=float)
     correction_path = Path(calibration_matrices_dir)
     if not correction_path.is_absolute():  # suppose it is in cwd
         correction_path = correction_path.joinpath(
-- 
2.43.0


From 275c6bc2c7d0e08fb7d7a954122db33f31ed5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 21/40] fix: terminate trimming for superpixel binning of
 odd-sided images

---
 micropolarray/processing/rebin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/rebin.py b/micropolarray/processing/rebin.py
index 3367153..35dc11f 100644
--- a/micropolarray/processing/rebin.py
+++ b/micropolarray/processing/rebin.py
@@ -129,10 +129,10 @@ def trim_to_match_2xbinning(height: int, width: int, binning: int):
     new_width = width
     new_height = height
     while new_width % (2 * binning):
-        new_width -= 2
+        new_width -= 1
         trimmed = True
     while new_height % (2 * binning):
-        new_height -= 2
+        new_height -= 1
         trimmed = True
     if trimmed:
         print_trimming_info(height, width, new_height, new_width)
-- 
2.43.0


From 1fce27ab2df189c63f71a2bd345025ba6bb35d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 22/40] fix: end rasterized lines exactly at the end pixel

---
 micropolarray/processing/linear_roi.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index d1bd77a..c629171 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -66,8 +66,8 @@ def linear_roi_from_polar(
         or (ys[-1] < 0)
         or (xs[-1] < 0)
     ):
-        ys = ys[:-2]
-        xs = xs[:-2]
+        ys = ys[:-1]
+        xs = xs[:-1]
 
     result = np.array([data[y, x] for y, x in zip(ys, xs)])
 
@@ -120,18 +120,15 @@ def DDA(start: list, end: list) -> np.ndarray:
         step = np.abs(dx)
     else:
         step = np.abs(dy)
-    dx = dx / step
-    dy = dy / step
-    x = x1
-    y = y1
-    xs = [int(x)]
-    ys = [int(y)]
+    xs = [x1]
+    ys = [y1]
 
     i = 0
-    while i <= step:
-        x = x + dx
-        y = y + dy
+    while i < step:
         i = i + 1
+        # multiply before dividing: no accumulation of rounding errors
+        y = y1 + i * dy / step
+        x = x1 + i * dx / step
         # if (int(y) != ys[-1]) and (int(x) != xs[-1]):
         ys.append(int(y))
         xs.append(int(x))
-- 
2.43.0


From ea7615cc11a3093431e3507623aa3cadbb6e4d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 23/40] fix: resize to a single row or column without dividing
 by zero

---
 micropolarray/processing/congrid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/congrid.py b/micropolarray/processing/congrid.py
index eca416e..bac5a20 100644
--- a/micropolarray/processing/congrid.py
+++ b/micropolarray/processing/congrid.py
@@ -51,7 +51,10 @@ def congrid(a, newdims, kind="linear") -> np.ndarray:
     # Linear method, default
     for i in range(ndims):
         base = np.arange(newdims[i])
-        dimlist.append((old[i] - m1) / (newdims[i] - m1) * base)
+        if newdims[i] == 1:
+            dimlist.append(base)  # only the first pixel is left
+        else:
+            dimlist.append((old[i] - m1) / (newdims[i] - m1) * base)
 
     olddims = [np.arange(i, dtype=float) for i in list(a.shape)]
     mint = scipy.interpolate.interp1d(
-- 
2.43.0


From 4d51e2f71977e4a75933c6858bbcabb8b090e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 24/40] fix: keep the Stokes images of a resized image at the
 size of its families

---
 micropolarray/micropol_image.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 8e44275..8223bc3 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -897,10 +897,18 @@ class MicropolImage(Image):
         newdata = merge_polarizations(congridded_pol_images)
         newimage = MicropolImage(self)
         newimage.data = newdata
-        newimage.Stokes_vec = [
-            congrid(stokes_component, [newdim_y, newdim_x])
-            for stokes_component in self.Stokes_vec
-        ]
+        new_stokes_dims = new_subdims
+        if self._is_demosaiced:
+            new_stokes_dims = [newdim_y, newdim_x]
+            newimage.demosaiced_images = np.array(
+                [congrid(image, new_stokes_dims) for image in self.demosaiced_images]
+            )
+        newimage.Stokes_vec = np.array(
+            [
+                congrid(stokes_component, new_stokes_dims)
+                for stokes_component in self.Stokes_vec
+            ]
+        )
         return newimage
 
     def rotate(self, angle: float) -> MicropolImage:
-- 
2.43.0


From 0fa4e48ba7ed752f00b970872945aed533fc5048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 25/40] fix: rotate and flip the fit flags together with the
 demodulation matrices

---
 micropolarray/processing/demodulation.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 916b0e1..682bfc1 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -256,14 +256,21 @@ class Demodulator:
 
     def rot90(self, k=1):
         # NB: rotation could switch micropol positions inside superpixel, but for demo matrix all px in superpix are equal
-        for i in range(self.n_malus_params):
-            for j in range(self.n_pixels_in_superpix):
-                self.mij[i, j] = np.rot90(self.mij[i, j], k=k)
+        self.mij = np.array(
+            [
+                [np.rot90(self.mij[i, j], k=k) for j in range(self.n_pixels_in_superpix)]
+                for i in range(self.n_malus_params)
+            ]
+        )  # sides are swapped if not square
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.rot90(self.fit_found_flags, k=k)
 
     def flip(self, axis):
         for i in range(self.n_malus_params):
             for j in range(self.n_pixels_in_superpix):
                 self.mij[i, j] = np.flip(self.mij[i, j], axis=axis)
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.flip(self.fit_found_flags, axis=axis)
 
 
 def calculate_demodulation_tensor(
-- 
2.43.0


From 77ab8a82dadc5fd2201f0438abb6634f5ba5444d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 26/40] fix: rebin the current matrices and fit flags of a
 demodulator

---
 micropolarray/processing/demodulation.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 682bfc1..51fa392 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -241,16 +241,25 @@ class Demodulator:
             shape=(
                 new_demodulator.n_malus_params,
                 new_demodulator.n_pixels_in_superpix,
-                int(new_demodulator.mij.shape[2] / binning),
-                int(new_demodulator.mij.shape[3] / binning),
+                int(self.mij.shape[2] / binning),
+                int(self.mij.shape[3] / binning),
             )
         )
         for j in range(new_demodulator.n_malus_params):
             for i in range(new_demodulator.n_pixels_in_superpix):
-                new_mij[j, i] = standard_rebin(new_demodulator.mij[j, i], binning) / (
+                new_mij[j, i] = standard_rebin(self.mij[j, i], binning) / (
                     binning * binning
                 )
         new_demodulator.mij = new_mij
+        new_demodulator.fit_found_flags = None
+        if self.fit_found_flags is not None:
+            # use the fit only where it was found for the entire block
+            new_demodulator.fit_found_flags = np.where(
+                standard_rebin(np.array(self.fit_found_flags, dtype=float), binning)
+                == binning * binning,
+                1.0,
+                0.0,
+            )
 
         return new_demodulator
 
-- 
2.43.0


From cd35fa8e32094eba03be2f136cf26a767f8c165b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:44 +0000
Subject: [PATCH 27/40] fix: resize from a single row or column, which leaves
 nothing to interpolate

---
 micropolarray/processing/congrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/micropolarray/processing/congrid.py b/micropolarray/processing/congrid.py
index bac5a20..bdc1b9d 100644
--- a/micropolarray/processing/congrid.py
+++ b/micropolarray/processing/congrid.py
@@ -43,6 +43,9 @@ def congrid(a, newdims, kind="linear") -> np.ndarray:
     a = np.cast[float](a)
 
     m1 = np.cast[int](True)
+    for axis in range(len(a.shape)):
+        if a.shape[axis] == 1:  # constant along axis, two points are needed
+            a = np.repeat(a, 2, axis=axis)
     old = np.array(a.shape)
     ndims = len(a.shape)
     newdims = np.asarray(newdims, dtype=float)
-- 
2.43.0


From 815d825e36a715517e356937fdb3ccd980d3f52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:33 +0000
Subject: [PATCH 28/40] fix: demodulation of a demosaiced or already
 demodulated image uses the theoretical Stokes values of its superpixels

---
 micropolarray/micropol_image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 8223bc3..987cf00 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -333,6 +333,9 @@ class MicropolImage(Image):
                     np.array(4 * [demodulator.fit_found_flags.astype(float)])
                 )  # idk why but fit_found_flags is >f8 as default
         else:
+            # the superpixels are used as they are, not their demosaicing
+            self._is_demosaiced = False
+            self.demosaiced_images = None
             mij = demodulator.mij
             splitted_pols = self.single_pol_subimages
 
@@ -382,7 +385,7 @@ class MicropolImage(Image):
 
         # use theo stokes where fit wasn't found
         if demodulator.fit_found_flags is not None:
-            theo_S = self.Stokes_vec
+            theo_S = self._get_theo_Stokes_vec_components()
             S = np.where(fit_found_flags == 1.0, S, theo_S)
 
         return S
-- 
2.43.0


From cbaa62c2967693e872578f52a8f69a0903c190fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 29/40] fix: rings of equal values came out of the radial
 filter as rounding noise instead of 0

---
 micropolarray/processing/nrgf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index ecf247d..9f34e19 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -162,7 +162,9 @@ def nrgf(
         mean_condition = np.logical_and(rho_condition, mean_phi_condition)
         mean_over_ROI = np.mean(data, where=mean_condition)
         std_over_ROI = np.std(data, where=mean_condition)
-        if std_over_ROI > 0:
+        ring = data[mean_condition]
+        # rounding can leave a tiny std where all values are equal
+        if ring.size and np.max(ring) > np.min(ring) and std_over_ROI > 0:
             newdata = np.where(
                 condition,
                 (data - mean_over_ROI) / std_over_ROI,
-- 
2.43.0


From 6e427b24717e8fad64c6040537fa617269569dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 30/40] fix: polar line selections listed pixels outside the
 image or ran backwards from the border

---
 micropolarray/processing/linear_roi.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index c629171..2e62012 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -50,17 +50,19 @@ def linear_roi_from_polar(
     while (
         # (y2 < data.shape[0] - 1)
         (y2 < data.shape[0])
-        and (y2 > 1)
+        and (y2 > -1)
         # and (x2 < data.shape[1] - 1)
         and (x2 < data.shape[1])
-        and (x2 > 1)
+        and (x2 > -1)
         and (np.sqrt((x2 - center[1]) ** 2 + (y2 - center[0]) ** 2) < r[1] - 1)
     ):
         y2 = y2 - np.sin(theta_rad)
         x2 = x2 + np.cos(theta_rad)
 
     ys, xs, points_density = DDA((y1, x1), (y2, x2))
-    while (
+    if not (0 <= ys[0] < data.shape[0] and 0 <= xs[0] < data.shape[1]):
+        ys, xs = ys[:0], xs[:0]  # nothing of the line is in the image
+    while len(ys) and (
         (ys[-1] >= data.shape[0])
         or (xs[-1] >= data.shape[1])
         or (ys[-1] < 0)
-- 
2.43.0


From 702bffd981ba8599faa025dcc40ce5ee39c9afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 31/40] fix: the superpixel at the center of the occulter was
 calibrated as if not occulted

---
 micropolarray/processing/demodulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 51fa392..cc30c84 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -369,8 +369,8 @@ def calculate_demodulation_tensor(
         occulter_y, occulter_x, occulter_r = binned_occulter
 
         occulter_flag = roi_from_polar(
-            occulter_flag, [occulter_y, occulter_x], [0, occulter_r]
-        )
+            occulter_flag, [occulter_y, occulter_x], [-2, occulter_r]
+        )  # negative inner radius, or the center would be left out
         for super_y in range(0, occulter_flag.shape[0], 2):
             for super_x in range(0, occulter_flag.shape[1], 2):
                 if np.any(occulter_flag[super_y : super_y + 2, super_x : super_x + 2]):
-- 
2.43.0


From f06e847661683cf19f97ce96d3a2b8f406f98487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:39 +0000
Subject: [PATCH 32/40] fix: a calibration folder with brackets or wildcards in
 its path was reported as empty

---
 micropolarray/processing/demodulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index cc30c84..ce6d451 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -43,7 +43,9 @@ class Demodulator:
     @property
     def Cij(self) -> np.ndarray:
         covariance_tensor_fnames = glob.glob(
-            os.path.join(self.demo_matrices_path, "covariance_tensor", "*")
+            os.path.join(
+                glob.escape(self.demo_matrices_path), "covariance_tensor", "*"
+            )
         )
 
         if not covariance_tensor_fnames:
@@ -149,7 +151,9 @@ class Demodulator:
             raise FileNotFoundError("self.demo_matrices_path not found.")
 
         # look for first matrix file and get dimensions
-        filenames_list = glob.glob(self.demo_matrices_path + os.path.sep + "*.fits")
+        filenames_list = glob.glob(
+            glob.escape(self.demo_matrices_path) + os.path.sep + "*.fits"
+        )
         if not filenames_list:
             raise FileNotFoundError("No fits files in selected folder.")
 
-- 
2.43.0


From 35a8fe1edbcaff514ecf2d7f720a8fd789390df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 33/40] fix: unrelated files with digits in their name were
 taken for matrices when loading a calibration

---
 micropolarray/processing/demodulation.py | 46 ++++++++++++++++++------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index ce6d451..0a368f0 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -29,6 +29,10 @@ N_PIXELS_IN_SUPERPIX = 4
 N_MALUS_PARAMS = 3
 
 
+# Two digits, not part of a longer number, indicating the matrix row and column
+MATRIX_INDEXES_PATTERN = "(?<![0-9])[0-2][0-3](?![0-9])"
+
+
 class Demodulator:
     """Demodulation class needed for MicropolImage
     demodulation."""
@@ -44,12 +48,19 @@ class Demodulator:
     def Cij(self) -> np.ndarray:
         covariance_tensor_fnames = glob.glob(
             os.path.join(
-                glob.escape(self.demo_matrices_path), "covariance_tensor", "*"
+                glob.escape(self.demo_matrices_path), "covariance_tensor", "*.fits"
             )
         )
 
         if not covariance_tensor_fnames:
             return None
+        covariance_tensor_fnames = [
+            filename
+            for filename in covariance_tensor_fnames
+            if re.search(MATRIX_INDEXES_PATTERN, filename.split(os.path.sep)[-1])
+        ]  # Exclude files not matching Cij
+        if not covariance_tensor_fnames:
+            raise ValueError("Incomplete covariance tensor in the selected folder. ")
         with fits.open(covariance_tensor_fnames[0]) as firsthul:
             sample_matrix = np.array(firsthul[0].data)
 
@@ -63,19 +74,25 @@ class Demodulator:
             dtype=float,
         )
 
-        matches = 0
+        matches = set()
         for filename in covariance_tensor_fnames:
-            pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
+            pattern_query = re.search(
+                MATRIX_INDEXES_PATTERN, filename.split(os.path.sep)[-1]
+            )
             if pattern_query is not None:  # Exclude files not matching m/Mij
-                matches += 1
                 i, j = pattern_query.group()[
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                if (i, j) in matches:
+                    raise ValueError(
+                        f"More than one file for matrix {i}{j} in the selected folder."
+                    )
+                matches.add((i, j))
                 with fits.open(filename) as hul:
                     Cij[i, j] = hul[0].data
 
-        if matches != (self.n_malus_params * self.n_malus_params):
+        if len(matches) != (self.n_malus_params * self.n_malus_params):
             raise ValueError("Incomplete covariance tensor in the selected folder. ")
 
         return Cij
@@ -158,7 +175,10 @@ class Demodulator:
             raise FileNotFoundError("No fits files in selected folder.")
 
         for filename in filenames_list:
-            if re.search("[0-9]{2}", filename.split(os.path.sep)[-1]) is not None:
+            if (
+                re.search(MATRIX_INDEXES_PATTERN, filename.split(os.path.sep)[-1])
+                is not None
+            ):
                 with fits.open(filename) as firsthul:
                     sample_matrix = np.array(firsthul[0].data)
                 break
@@ -174,22 +194,28 @@ class Demodulator:
         )
         fit_found_flags = None
 
-        matches = 0
+        matches = set()
         for filename in filenames_list:
-            pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
+            pattern_query = re.search(
+                MATRIX_INDEXES_PATTERN, filename.split(os.path.sep)[-1]
+            )
             if pattern_query is not None:  # Exclude files not matching m/Mij
-                matches += 1
                 i, j = pattern_query.group()[
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                if (i, j) in matches:
+                    raise ValueError(
+                        f"More than one file for matrix {i}{j} in the selected folder."
+                    )
+                matches.add((i, j))
                 with fits.open(filename) as hul:
                     Mij[i, j] = hul[0].data
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
                     fit_found_flags = hul[0].data
 
-        if matches != 12:
+        if len(matches) != 12:
             raise ValueError(
                 "Missing matrices in the selected folder. Check correct folder name and files pattern '*ij*.fits'."
             )
-- 
2.43.0


From 42adce8e5ff9434dcf08997a5239b3f933c08f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 34/40] fix: Chen-Wan-Liang calibration subtracts offsets
 without integer wrap-around

---
 micropolarray/processing/chen_wan_liang_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 0286169..31e4a46 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -288,7 +288,7 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
     with fits.open(calibration_matrices_dir + f"/d_ij.fits") as file:
         d_ij = file[0].data
 
-    P_minus_d = data - d_ij
+    P_minus_d = np.asarray(data, dtype=float) - d_ij
 
     for super_y in range(0, height, 2):
         for super_x in range(0, width, 2):
-- 
2.43.0


From 7ddd5bccb8c4b899767675cbd5eb0b212416a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 35/40] fix: demosaiced images are only saved under .fits names

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 987cf00..1deb278 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -793,7 +793,7 @@ class MicropolImage(Image):
             raise ValueError("Demosaiced images not yet calculated.")
         imageHdr = self.header.copy()
         filepath = Path(filename)
-        if not filepath.suffix:
+        if filepath.suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
         filepath = Path(_make_abs_and_create_dir(filename))
         group_filename = str(filepath.joinpath(filepath.parent, filepath.stem))
-- 
2.43.0


From 9cc08c834ac7bdf463b21c7c6bcf49a247ab3fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 36/40] fix: files whose DATE-OBS holds no readable time can be
 loaded

---
 micropolarray/image.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 557f92e..027f595 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -75,12 +75,15 @@ class Image:
                         "%Y-%m-%dT%H:%M:%S",
                     )
                 except ValueError:  # antarticor format
-                    datetimes[idx] = datetime.datetime.strptime(
-                        hul[0].header["DATE-OBS"]
-                        + "-"
-                        + hul[0].header["TIME-OBS"].split(".")[0],
-                        "%Y-%m-%d-%H:%M:%S",
-                    )
+                    try:
+                        datetimes[idx] = datetime.datetime.strptime(
+                            hul[0].header["DATE-OBS"]
+                            + "-"
+                            + hul[0].header["TIME-OBS"].split(".")[0],
+                            "%Y-%m-%d-%H:%M:%S",
+                        )
+                    except (KeyError, ValueError):  # no usable time
+                        pass
                 except KeyError:
                     pass
 
-- 
2.43.0


From 28a62bf024fc2d93f360e30c5ba3c0e96f66d048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:41 +0000
Subject: [PATCH 37/40] fix: show_demo_images uses the given colour limits
 instead of failing

---
 micropolarray/micropol_image.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 1deb278..25651e8 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -576,6 +576,7 @@ class MicropolImage(Image):
         ax = ax.ravel()
         demo_images_list = self.demosaiced_images
         for i, single_demo_ax in enumerate(ax):
+            this_vmin, this_vmax = vmin, vmax
             if vmin is None:
                 this_vmin = mean_minus_std(demo_images_list[i])
             if vmax is None:
-- 
2.43.0


From 77495817fb3905bc3f5f911b315645b87e48c356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:41 +0000
Subject: [PATCH 38/40] fix: Demodulator.show returns the array of axes, not
 the last one

---
 micropolarray/processing/demodulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 0a368f0..09bad22 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -249,8 +249,8 @@ class Demodulator:
                     self.mij[i, j], cmap=cmap, vmin=vmin, vmax=vmax
                 )
                 ax[i, j].set_title(rf"M$_{i}$$_{j}$")
-        for ax in fig.get_axes():
-            ax.label_outer()
+        for axis in fig.get_axes():
+            axis.label_outer()
 
         fig.subplots_adjust(right=0.8)
         cbar_ax = fig.add_axes([0.85, 0.15, 0.05, 0.7])
-- 
2.43.0


From 97bb2e2bc3140f7c72cb1dff90516062586e0d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:41 +0000
Subject: [PATCH 39/40] fix: Chen-Wan-Liang calibration works without a flat
 and on frames of any type

---
 .../processing/chen_wan_liang_calibration.py        | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 31e4a46..598ed1f 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -66,7 +66,7 @@ def calculate_chen_wan_lian_calibration(
         # Mean values from coronal observations 2022_12_03
         # (campagna_2022/mean_occulter_pos.py)
 
-        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_nov2022
+        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_last
         occulter_r += 10  # Better to overoccult
 
         occulter_flag = roi_from_polar(
@@ -87,24 +87,25 @@ def calculate_chen_wan_lian_calibration(
     # Collect dark
     if dark_filename:
         with fits.open(dark_filename) as file:
-            dark = file[0].data
+            dark = np.array(file[0].data, dtype=float)
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = file[0].data
+            flat = np.array(file[0].data, dtype=float)
     if flat_filename and dark_filename:
         flat -= dark  # correct flat too
         flat = np.where(flat > 0, flat, 1.0)
         if occulter:
             flat = np.where(occulter_flag, 1.0, flat)
 
-    flat_max = np.max(flat, axis=(0, 1))
-    normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
+    if flat_filename:
+        flat_max = np.max(flat, axis=(0, 1))
+        normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
 
     all_data_arr = [0.0] * filenames_n
     for idx, filename in enumerate(filenames_list):
         with fits.open(filename) as file:
-            all_data_arr[idx] = file[0].data
+            all_data_arr[idx] = np.array(file[0].data, dtype=float)
             if dark_filename is not None:
                 all_data_arr[idx] -= dark
                 all_data_arr[idx] = np.where(
-- 
2.43.0


From 754310e3ab1999d967271e86fd31155c56671c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:41 +0000
Subject: [PATCH 40/40] fix: create missing parents of an output directory

---
 micropolarray/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index c835433..e3ccd9f 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -42,7 +42,7 @@ def _make_abs_and_create_dir(filename: str):
             path.parent.mkdir(parents=True)
     else:
         if not path.exists():
-            path.mkdir()
+            path.mkdir(parents=True)
     return str(path)
 
 
-- 
2.43.0

