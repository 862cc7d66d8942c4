From 294411decfec20d0b43955d52bce4673ae877f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 01/51] fix: rotate() no longer overwrites the Stokes
 parameters of the image it is called on

---
 micropolarray/micropol_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 483d9aa..6c4e0bf 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -901,7 +901,7 @@ class MicropolImage(Image):
             single_pols[i] = np.asarray(image, dtype=float)
         data = merge_polarizations(single_pols)
 
-        Stokes_vec = self.Stokes_vec
+        Stokes_vec = np.array(self.Stokes_vec)
         for i in range(3):
             image = PILImage.fromarray(Stokes_vec[i])
             image = image.rotate(angle)
-- 
2.43.0


From 1870626f76724893cbd320ca6097965e7e42c5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 02/51] fix: copies of a MicropolImage and results of its
 operators no longer share data, header, Stokes or angle dictionary with the
 original

---
 micropolarray/micropol_image.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 6c4e0bf..5ae0f9d 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -121,16 +121,17 @@ class MicropolImage(Image):
         self.demosaiced_images = None
 
     def _import_image_parameters(self, image: MicropolImage):
-        self.data = image.data
-        self.header = image.header
-        self.angle_dic = image.angle_dic
-        self.Stokes_vec = image.Stokes_vec
+        self.header = image.header.copy()
+        self.data = image.data.copy()
+        self.angle_dic = dict(image.angle_dic)
+        self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
-        self.demosaiced_images = image.demosaiced_images
+        if image.demosaiced_images is not None:
+            self.demosaiced_images = np.array(image.demosaiced_images)
 
     # ----------------------------------------------------------------
     # -------------------- POLARIZATION PROPERTIES -------------------
@@ -1010,7 +1011,7 @@ class MicropolImage(Image):
             newdata = self.data + second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1032,7 +1033,7 @@ class MicropolImage(Image):
             newdata = self.data - second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1054,7 +1055,7 @@ class MicropolImage(Image):
             newdata = self.data * second
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
@@ -1076,7 +1077,7 @@ class MicropolImage(Image):
             newdata = np.divide(self.data, second, where=second != 0.0)
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
-        newimage.header = self.header
+        newimage.header = self.header.copy()
         return newimage
 
         # CHANGED 2024/12/21: keep the header of the first image
-- 
2.43.0


From 89eef95b0bf7c93a3fc09cee849ddfc736826972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 03/51] fix: images and the default orientations no longer
 alias the caller's angle dictionary

---
 micropolarray/micropol_image.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 5ae0f9d..2e3827c 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -63,7 +63,7 @@ def set_default_angles(angles_dic: dict):
         angles_dic (dict): dictionary {value : pos} where value is the angle in degrees from -90 to 90 and pos is the pixel position in superpixel, from 0 to 3 (position [y, x], fast index x)
     """
     global DEFAULT_ANGLES_DIC
-    DEFAULT_ANGLES_DIC = angles_dic
+    DEFAULT_ANGLES_DIC = dict(angles_dic)
 
 
 class MicropolImage(Image):
@@ -90,7 +90,7 @@ class MicropolImage(Image):
                 MicropolImage.first_call = False
                 DEFAULT_ANGLES_DIC = PolarCam().angle_dic
             angle_dic = DEFAULT_ANGLES_DIC
-        self.angle_dic = angle_dic
+        self.angle_dic = dict(angle_dic)
 
         if type(initializer) is list and len(initializer) > 1:
             self._num_of_images = len(initializer)
-- 
2.43.0


From f886ca6863d9acc6ec1e9a9d5c197a1fffc74cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:42 +0000
Subject: [PATCH 04/51] fix: Image no longer keeps a reference to the caller's
 array

---
 micropolarray/image.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 052f85a..649af85 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -28,7 +28,6 @@ class Image:
             self._init_image_from_file(initializer, averageimages)
         elif type(initializer) is np.ndarray:
             self._init_image_from_data(initializer)
-            self.new_data = initializer
         elif type(initializer) is Image:
             self._init_image_from_image(initializer)
 
-- 
2.43.0


From 10456c70ab608a7d59cc9a409d6d3df62706326c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 05/51] fix: polarization parameters of a demosaiced image
 follow its data after arithmetic, corrections, rebinning, shifting and
 rotation

---
 micropolarray/micropol_image.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 2e3827c..4e06b90 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -115,6 +115,7 @@ class MicropolImage(Image):
         self._data = None
         self._is_demodulated = False
         self._is_demosaiced = False
+        self._demosaic_mode = None
         self._binning = 1
         self._flat_subtracted = False
         self._dark_subtracted = False
@@ -127,6 +128,7 @@ class MicropolImage(Image):
         self.Stokes_vec = np.array(image.Stokes_vec)
         self._is_demodulated = image._is_demodulated
         self._is_demosaiced = image._is_demosaiced
+        self._demosaic_mode = image._demosaic_mode
         self._binning = image._binning
         self._dark_subtracted = image._dark_subtracted
         self._flat_subtracted = image._flat_subtracted
@@ -234,6 +236,10 @@ class MicropolImage(Image):
     def _update_data_and_Stokes(self, newdata: np.ndarray = None):
         if newdata is not None:
             self.data = newdata
+            if self._is_demosaiced:  # demosaiced images follow the data
+                self.demosaiced_images = demosaic(
+                    self.data, option=self._demosaic_mode
+                )
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
     def demodulate(
@@ -388,9 +394,9 @@ class MicropolImage(Image):
         Returns:
             MicropolImage: copy of input image with dark subtracted
         """
-        self.data = self.data - dark.data
-        self.data = np.where(self.data >= 0, self.data, 0)  # Fix data
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        newdata = self.data - dark.data
+        newdata = np.where(newdata >= 0, newdata, 0)  # Fix data
+        self._update_data_and_Stokes(newdata)
         self._dark_subtracted = True
         return self
 
@@ -405,7 +411,7 @@ class MicropolImage(Image):
         """
         normalized_flat = flat.data / np.mean(flat.data)
 
-        self.data = np.divide(
+        newdata = np.divide(
             self.data,
             normalized_flat,
             where=normalized_flat != 0.0,
@@ -413,7 +419,7 @@ class MicropolImage(Image):
 
         # self.data = np.where(self.data >= 0, self.data, 0)
         # self.data = np.where(self.data < 4096, self.data, 4096)
-        self.Stokes_vec = self._get_theo_Stokes_vec_components()
+        self._update_data_and_Stokes(newdata)
         self._flat_subtracted = True
         return self
 
@@ -817,6 +823,7 @@ class MicropolImage(Image):
 
         self.demosaiced_images = demosaic(self.data, option=demosaic_mode)
         self._is_demosaiced = True
+        self._demosaic_mode = demosaic_mode
         self.Stokes_vec = self._get_theo_Stokes_vec_components()
 
         return self
@@ -910,6 +917,13 @@ class MicropolImage(Image):
         newimage = MicropolImage(self)
         newimage.data = data
         newimage.Stokes_vec = Stokes_vec
+        if newimage._is_demosaiced:
+            newimage.demosaiced_images = np.array(
+                [
+                    np.asarray(PILImage.fromarray(demo_image).rotate(angle), dtype=float)
+                    for demo_image in self.demosaiced_images
+                ]
+            )
 
         return newimage
 
-- 
2.43.0


From 07ab84fa0d10dd73ed49e45c6788717f075e4ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 06/51] fix: congrid() yields polarization parameters that
 match the reshaped data

---
 micropolarray/micropol_image.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 4e06b90..685c596 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -892,11 +892,14 @@ class MicropolImage(Image):
             congridded_pol_images[subimage_i] = congrid(pol_subimage, new_subdims)
         newdata = merge_polarizations(congridded_pol_images)
         newimage = MicropolImage(self)
-        newimage.data = newdata
-        newimage.Stokes_vec = [
-            congrid(stokes_component, [newdim_y, newdim_x])
-            for stokes_component in self.Stokes_vec
-        ]
+        newimage._update_data_and_Stokes(newdata)
+        if self._is_demodulated:  # can't be derived from the data again
+            newimage.Stokes_vec = np.array(
+                [
+                    congrid(stokes_component, newimage.Stokes_vec[0].shape)
+                    for stokes_component in self.Stokes_vec
+                ]
+            )
         return newimage
 
     def rotate(self, angle: float) -> MicropolImage:
-- 
2.43.0


From a240decfddba4baa39e4417a3239d6d3480cb2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 07/51] fix: division by zero-valued pixels (image division,
 flat correction) yields 0 instead of uninitialised memory

---
 micropolarray/image.py          | 14 ++++++++++++--
 micropolarray/micropol_image.py | 15 +++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 649af85..3c5be24 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -296,7 +296,17 @@ class Image:
 
     def __truediv__(self, second) -> Image:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0)
+            newdata = np.divide(
+                self.data,
+                second.data,
+                where=second.data != 0,
+                out=np.zeros_like(self.data, dtype=float),
+            )
         else:
-            newdata = np.divide(self.data, second, where=second != 0)
+            newdata = np.divide(
+                self.data,
+                second,
+                where=second != 0,
+                out=np.zeros_like(self.data, dtype=float),
+            )
         return Image(newdata)
diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 685c596..780afaf 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -415,6 +415,7 @@ class MicropolImage(Image):
             self.data,
             normalized_flat,
             where=normalized_flat != 0.0,
+            out=np.zeros_like(self.data, dtype=float),
         )
 
         # self.data = np.where(self.data >= 0, self.data, 0)
@@ -1087,11 +1088,21 @@ class MicropolImage(Image):
 
     def __truediv__(self, second) -> MicropolImage:
         if type(self) is type(second):
-            newdata = np.divide(self.data, second.data, where=second.data != 0.0)
+            newdata = np.divide(
+                self.data,
+                second.data,
+                where=second.data != 0.0,
+                out=np.zeros_like(self.data, dtype=float),
+            )
             newimage = MicropolImage(self)
             newimage._update_data_and_Stokes(newdata)
         else:
-            newdata = np.divide(self.data, second, where=second != 0.0)
+            newdata = np.divide(
+                self.data,
+                second,
+                where=second != 0.0,
+                out=np.zeros_like(self.data, dtype=float),
+            )
             newimage = MicropolImage(newdata, angle_dic=self.angle_dic)
 
         newimage.header = self.header.copy()
-- 
2.43.0


From a424799434eebd21db4a15ab81118b56f59bea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 08/51] fix: fix_data() applies limits that are 0

---
 micropolarray/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index f9bdf34..c835433 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -53,7 +53,7 @@ def sigma_DN(pix_DN):
 
 
 def fix_data(data: np.array, min, max):
-    if not (min and max):
+    if min is None or max is None:
         return data
     fixed_data = data.copy()
     fixed_data = np.where(fixed_data > min, fixed_data, min)
-- 
2.43.0


From 8625cfb3f7a79834c9da39b3093a7282bedff993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:57 +0000
Subject: [PATCH 09/51] fix: normalize2pi() no longer modifies the caller's
 list

---
 micropolarray/polarization_functions.py | 1 +
 micropolarray/utils.py                  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/micropolarray/polarization_functions.py b/micropolarray/polarization_functions.py
index 7bfcab4..00348c2 100644
--- a/micropolarray/polarization_functions.py
+++ b/micropolarray/polarization_functions.py
@@ -78,6 +78,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)  # don't modify the input list
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index c835433..7473eab 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -130,6 +130,7 @@ def normalize2pi(angles_list):
         angles_list = [
             angles_list,
         ]
+    angles_list = list(angles_list)  # don't modify the input list
     for i, angle in enumerate(angles_list):
         while angle > 90:
             angle -= 180
-- 
2.43.0


From 78f15b3916b0e67e05219f80d9740b0511a68fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 10/51] fix: Image loaded from a single file name keeps the
 whole name

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 3c5be24..0dc36ba 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -107,7 +107,7 @@ class Image:
             tempfilename[-1] = "SUM_" + tempfilename[-1]
             self.filename = os.path.sep.join(tempfilename)
         else:
-            self.filename = filenames[0]
+            self.filename = filenames_list[0]
 
     def _init_image_from_image(self, image: Image):
         self.data = image.data.copy()
-- 
2.43.0


From 17ad99b11ff063e0900e16da047f05d802457334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 11/51] fix: raw files are rejected by the image constructor

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 0dc36ba..54e1d17 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -45,7 +45,7 @@ class Image:
 
         print_info_message = True
         for idx, filename in enumerate(filenames_list):
-            if ".raw" in filenames_list:
+            if str(filename).endswith(".raw"):
                 raise NameError(
                     "Can't load a raw file, convert it to fits first."
                 )  # to fix
-- 
2.43.0


From e698f28f059a418bd589a4598ba0efb0ecebc378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 12/51] fix: an Image built from another image (of any class)
 keeps its header, unsupported initializers are rejected

---
 micropolarray/image.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 54e1d17..7afa71e 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -26,10 +26,14 @@ class Image:
         self.header = None
         if type(initializer) is str or type(initializer) is list:
             self._init_image_from_file(initializer, averageimages)
-        elif type(initializer) is np.ndarray:
+        elif isinstance(initializer, np.ndarray):
             self._init_image_from_data(initializer)
-        elif type(initializer) is Image:
+        elif isinstance(initializer, Image):
             self._init_image_from_image(initializer)
+        else:
+            raise TypeError(
+                f"Can't initialize an image from {type(initializer).__name__}."
+            )
 
     def _init_image_from_data(self, input_data: np.array) -> None:
         self.data = np.array(input_data)
@@ -110,6 +114,7 @@ class Image:
             self.filename = filenames_list[0]
 
     def _init_image_from_image(self, image: Image):
+        self.header = image.header.copy()
         self.data = image.data.copy()
         self.filename = image.filename
 
-- 
2.43.0


From a92a68253abd8ba64a419cbd600882569949abfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 13/51] fix: convert_rawfile_to_fits() writes next to the
 source for names with several dots and only accepts .raw files

---
 micropolarray/processing/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 351bc3a..2168b09 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -197,14 +197,14 @@ def convert_rawfile_to_fits(
     Raises:
         ValueError: raised if the file does not end with ".raw"
     """
-    if not ".raw" in filename:
+    if not filename.endswith(".raw"):
         raise ValueError("Can't convert: not a row file")
     with open(filename, mode="rb") as file:
         buffer = file.read()
     data = np.ndarray(shape=(height, width), dtype="<u2", buffer=buffer)
     HDU = fits.PrimaryHDU(data=data)
     filename = os.path.abspath(filename)  # prevents bug when "../" is in filename
-    new_filename = os.path.pathsep.join(filename.split(".")[:-1]) + ".fits"
+    new_filename = os.path.splitext(filename)[0] + ".fits"
     HDU.writeto(new_filename, overwrite=True)
     info(f'Image successfully saved to "{new_filename}".')
 
-- 
2.43.0


From abf658b70dbc991d470fe5f67f82557c76d83fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:13 +0000
Subject: [PATCH 14/51] fix: show_demo_images() accepts explicit vmin and vmax

---
 micropolarray/micropol_image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 780afaf..46d5ea1 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -570,6 +570,8 @@ class MicropolImage(Image):
         ax = ax.ravel()
         demo_images_list = self.demosaiced_images
         for i, single_demo_ax in enumerate(ax):
+            this_vmin = vmin
+            this_vmax = vmax
             if vmin is None:
                 this_vmin = mean_minus_std(demo_images_list[i])
             if vmax is None:
-- 
2.43.0


From 210341583e94302e984d0897c53d44bc845c6722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 15/51] fix: roi_from_polar() works with its documented default
 radius

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index 5bdf4e9..ecf247d 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -35,7 +35,6 @@ def roi_from_polar(
     """
     height, width = data.shape
     theta_min, theta_max = theta
-    rho_min, rho_max = rho
     if center is None:
         center = [int(height / 2), int(width / 2)]
     else:
@@ -44,6 +43,7 @@ def roi_from_polar(
     if rho is None:
         rho_max = np.min([height - center[0], width - center[1]])
         rho = [0.0, rho_max]
+    rho_min, rho_max = rho
 
     if include_superpixels:
         # make a map that is HALF THE SIZE, do condition, then resize to make all the superpixel outside selection
-- 
2.43.0


From a2819220f061e279105ce681ec45a2054dc844ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 16/51] fix: spline demosaicing and flat correction of the
 demodulation tensor no longer use the removed np.float

---
 micropolarray/processing/demodulation.py | 2 +-
 micropolarray/processing/demosaic.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index d97a0ff..bbada28 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -371,7 +371,7 @@ def calculate_demodulation_tensor(
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = np.array(file[0].data, dtype=np.float)
+            flat = np.array(file[0].data, dtype=float)
         if correct_ifov:
             flat = _ifov_jitcorrect(flat, *flat.shape)
         flat = micropolarray_rebin(flat, binning)
diff --git a/micropolarray/processing/demosaic.py b/micropolarray/processing/demosaic.py
index 841699e..2232981 100644
--- a/micropolarray/processing/demosaic.py
+++ b/micropolarray/processing/demosaic.py
@@ -144,7 +144,7 @@ def demosaic(image_data, option="adjacent"):
     elif option == "spline":
         single_pol_subimages = np.array(
             [image_data[j::2, i::2] for j in range(2) for i in range(2)],
-            dtype=np.float,
+            dtype=float,
         )
         demo_images = [
             congrid(
-- 
2.43.0


From 1f5741a85f6364cf101df1b3ec33dcb1cdc3f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 17/51] fix: get_hot_pixels() calls an existing method

---
 micropolarray/processing/image_cleaning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/image_cleaning.py b/micropolarray/processing/image_cleaning.py
index 0d64869..8989a1a 100644
--- a/micropolarray/processing/image_cleaning.py
+++ b/micropolarray/processing/image_cleaning.py
@@ -17,7 +17,7 @@ def get_hot_pixels(image, threshold=100):
     # diff = np.where(diff > threshold, 1, 0)
 
     newimage = MicropolImage(image)
-    newimage._set_data_and_Stokes(merge_polarizations(diff))
+    newimage._update_data_and_Stokes(merge_polarizations(diff))
 
     return newimage
 
-- 
2.43.0


From 46ef2a30216106631d5abd65e040ede1a7330463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 18/51] fix: calculate_chen_wan_lian_calibration() runs with
 its default arguments

---
 micropolarray/processing/chen_wan_liang_calibration.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index b601251..ad3edbf 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -66,7 +66,7 @@ def calculate_chen_wan_lian_calibration(
         # Mean values from coronal observations 2022_12_03
         # (campagna_2022/mean_occulter_pos.py)
 
-        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_nov2022
+        occulter_y, occulter_x, occulter_r = PolarCam().occulter_pos_last
         occulter_r += 10  # Better to overoccult
 
         occulter_flag = roi_from_polar(
@@ -98,8 +98,9 @@ def calculate_chen_wan_lian_calibration(
         if occulter:
             flat = np.where(occulter_flag, 1.0, flat)
 
-    flat_max = np.max(flat, axis=(0, 1))
-    normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
+    if flat_filename:
+        flat_max = np.max(flat, axis=(0, 1))
+        normalized_flat = np.where(occulter_flag, 1.0, flat / flat_max)
 
     all_data_arr = [0.0] * filenames_n
     for idx, filename in enumerate(filenames_list):
-- 
2.43.0


From 13320acbf6ae4d012f799a1ed6ef4e4f8a34a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 19/51] fix: line selections stop at the requested end point

---
 micropolarray/processing/linear_roi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index d1bd77a..e892f72 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -128,7 +128,7 @@ def DDA(start: list, end: list) -> np.ndarray:
     ys = [int(y)]
 
     i = 0
-    while i <= step:
+    while i < step:
         x = x + dx
         y = y + dy
         i = i + 1
-- 
2.43.0


From b35a18a63d60620e43ea03de7b88ee1269ade5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:52 +0000
Subject: [PATCH 20/51] fix: merge_rawfiles_to_fits() and
 find_occulter_position() reject unknown modes instead of silently returning
 something else

---
 micropolarray/processing/convert.py | 3 +++
 micropolarray/processing/nrgf.py    | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index 2168b09..d663dea 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -156,6 +156,9 @@ def merge_rawfiles_to_fits(
     Raises:
         ValueError: trying to save in a file that does not end with .fits
     """
+    if mode not in ("sum", "average"):
+        raise ValueError('"mode" should be one of ["sum", "average"]')
+
     abs_new_filename = str(Path(new_filename).absolute())
     if abs_new_filename.split(".")[-1] != "fits":
         raise ValueError("Output filename must have a .fits extension.")
diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index ecf247d..7e5e35f 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -341,8 +341,8 @@ def find_occulter_position(
             raise ValueError(
                 "ERROR: occulter edges not found, try to change the threshold"
             )
-    elif method == "hugh":
-        pass  # TODO
+    else:
+        raise ValueError('"method" should be one of ["sigmoid", "algo"]')
     if show:
         plt.show()
 
-- 
2.43.0


From bba2b5735dc332a2fc8117fb916c758692894eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 21/51] fix: 12 bit raw files with null bytes at a chunk end
 are decoded correctly

---
 micropolarray/processing/convert.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/convert.py b/micropolarray/processing/convert.py
index d663dea..49690b0 100644
--- a/micropolarray/processing/convert.py
+++ b/micropolarray/processing/convert.py
@@ -54,9 +54,10 @@ def nparr_from_binary(filename):
     if chunk_size % 1 or (chunk_size / 3) % 1:
         raise ValueError("Indivisible by chunks")
     chunk_size = int(chunk_size)
-    splitted = np.array(
-        [filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)]
-    )
+    # NOTE: a numpy array of bytes would strip the trailing zeros of each chunk
+    splitted = [
+        filecontent[i * chunk_size : (i + 1) * chunk_size] for i in range(chunks_n)
+    ]
     with mp.Pool(processes=chunks_n) as p:
         result = p.map(three_bytes_to_two_ints, splitted)
     newarr = np.array(result).reshape((1952, 1952))
-- 
2.43.0


From 2f10e365f24da5c00c9498a0ec4a55a675f05d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 22/51] fix: demodulation with demosaicing works with tensors
 without fit flags

---
 micropolarray/micropol_image.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 46d5ea1..1255441 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -327,9 +327,10 @@ class MicropolImage(Image):
                     mij[i, j, :, :] = merge_polarizations(
                         np.repeat(demo_component[np.newaxis, :, :], 4, axis=0)
                     )  # repeat necessary to avoid numba problems
-            fit_found_flags = merge_polarizations(
-                np.array(4 * [demodulator.fit_found_flags.astype(float)])
-            )  # idk why but fit_found_flags is >f8 as default
+            if fit_found_flags is not None:
+                fit_found_flags = merge_polarizations(
+                    np.array(4 * [fit_found_flags.astype(float)])
+                )  # idk why but fit_found_flags is >f8 as default
         else:
             mij = demodulator.mij
             splitted_pols = self.single_pol_subimages
-- 
2.43.0


From a6541597fa92d277deaf7adba2f8356f35acc36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 23/51] fix: demodulation falls back on the theoretical Stokes
 vector also for demosaiced or already demodulated images

---
 micropolarray/micropol_image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 1255441..455fb05 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -332,6 +332,9 @@ class MicropolImage(Image):
                     np.array(4 * [fit_found_flags.astype(float)])
                 )  # idk why but fit_found_flags is >f8 as default
         else:
+            # result has half the dimension of the image
+            self._is_demosaiced = False
+            self.demosaiced_images = None
             mij = demodulator.mij
             splitted_pols = self.single_pol_subimages
 
@@ -381,7 +384,7 @@ class MicropolImage(Image):
 
         # use theo stokes where fit wasn't found
         if demodulator.fit_found_flags is not None:
-            theo_S = self.Stokes_vec
+            theo_S = self._get_theo_Stokes_vec_components()
             S = np.where(fit_found_flags == 1.0, S, theo_S)
 
         return S
-- 
2.43.0


From 4d968f124753c6469df59c25c208aa2d5b4de9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 24/51] fix: demosaicing and IFOV correction reject odd-sized
 data instead of accessing memory out of bounds

---
 micropolarray/processing/chen_wan_liang_calibration.py | 2 ++
 micropolarray/processing/demosaic.py                   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index ad3edbf..44f0164 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -308,6 +308,8 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
 
 @njit
 def _ifov_jitcorrect(data, height, width):
+    if (height % 2) or (width % 2):
+        raise ValueError("Odd number of pixels, can't correct superpixels.")
     corrected_data = np.zeros(shape=(height, width))
     # correct IFOV error, skip first rows/cols
     for super_y in range(2, height, 2):
diff --git a/micropolarray/processing/demosaic.py b/micropolarray/processing/demosaic.py
index 2232981..671ed55 100644
--- a/micropolarray/processing/demosaic.py
+++ b/micropolarray/processing/demosaic.py
@@ -121,6 +121,8 @@ def demosaic(image_data, option="adjacent"):
     micropolarizer image array [n, m].
     """
     data = image_data
+    if (data.shape[0] % 2) or (data.shape[1] % 2):
+        raise ValueError("Odd number of pixels, can't demosaic.")
     temp_data = data.copy()
     demo_images = np.empty([4, data.shape[0], data.shape[1]], dtype="d")
 
-- 
2.43.0


From 7faeeb5298e3305f7e9b873eacdede6b44b40018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 25/51] fix: superpixel rebinning rejects odd-sized data
 instead of looping forever

---
 micropolarray/processing/rebin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/micropolarray/processing/rebin.py b/micropolarray/processing/rebin.py
index 3367153..088da0b 100644
--- a/micropolarray/processing/rebin.py
+++ b/micropolarray/processing/rebin.py
@@ -125,6 +125,8 @@ def trim_to_match_2xbinning(height: int, width: int, binning: int):
     Returns:
         int, int: image new height and width
     """
+    if (height % 2) or (width % 2):
+        raise ValueError("Odd number of pixels, can't rebin superpixels.")
     trimmed = False
     new_width = width
     new_height = height
-- 
2.43.0


From d8d22ac302e58ad0edc8951d23333792369b38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 26/51] fix: invalid output file names are rejected before any
 directory is created, also for demosaiced images

---
 micropolarray/micropol_image.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index 455fb05..e2adb46 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -673,9 +673,9 @@ class MicropolImage(Image):
             ValueError: an invalid file name is provided
         """
         polslist = [self.pol0, self.pol45, self.pol90, self.pol_45]
-        filepath = Path(_make_abs_and_create_dir(filename))
-        if filepath.suffix != ".fits":
+        if Path(filename).suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
+        filepath = Path(_make_abs_and_create_dir(filename))
         group_filepath = filepath.joinpath(filepath.parent, filepath.stem)
         for single_pol in polslist:
             hdr = self.header.copy()
@@ -715,9 +715,9 @@ class MicropolImage(Image):
             ValueError: filename is not a valid .fits file
         """
         polparam = getattr(self, polparam)
-        filepath = Path(_make_abs_and_create_dir(filename))
-        if filepath.suffix != ".fits":
+        if Path(filename).suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
+        filepath = Path(_make_abs_and_create_dir(filename))
         hdr = self.header.copy()
         hdr["PARAM"] = (str(polparam.title), "Polarization parameter")
         hdr["UNITS"] = (str(polparam.measure_unit), "Measure units")
@@ -793,7 +793,7 @@ class MicropolImage(Image):
             raise ValueError("Demosaiced images not yet calculated.")
         imageHdr = self.header.copy()
         filepath = Path(filename)
-        if not filepath.suffix:
+        if filepath.suffix != ".fits":
             raise ValueError("filename must be a valid file name, not folder.")
         filepath = Path(_make_abs_and_create_dir(filename))
         group_filename = str(filepath.joinpath(filepath.parent, filepath.stem))
-- 
2.43.0


From b2132d46ee0b76ed11b5e1d635901f2336cc0d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 27/51] fix: calculate_demodulation_tensor() rejects processor
 grids that do not divide the image instead of leaving rows and columns at
 zero

---
 micropolarray/processing/demodulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index bbada28..5e6fb80 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -496,6 +496,10 @@ def calculate_demodulation_tensor(
     chunks_n_y, chunks_n_x = procs_grid
     chunk_size_y = int(height / chunks_n_y)
     chunk_size_x = int(width / chunks_n_x)
+    if (height % chunks_n_y) or (width % chunks_n_x):
+        raise ValueError(
+            f"cant decompose a {height}x{width} image into a {procs_grid[0]}x{procs_grid[1]} grid (not divisible). Try changing the number of processors."
+        )
     if (chunk_size_x % 2) or (chunk_size_y % 2):
         raise ValueError(
             f"cant decompose into a {procs_grid[0]}x{procs_grid[1]} grid (odd side grid {chunk_size_y}x{chunk_size_x}). Try changing the number of processors."
-- 
2.43.0


From ed11d2b058550ea5318ec11bbf9bfa102450aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 28/51] fix: calculate_demodulation_tensor() raises errors of
 its workers instead of exiting with status 0

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 5e6fb80..3ad7442 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -623,7 +623,7 @@ def calculate_demodulation_tensor(
             ending_time = time.perf_counter()
 
             info(f"Elapsed : {(ending_time - starting_time)/60:3.2f} mins")
-            sys.exit()
+            raise
 
     else:
         arglist = [arg for arg in args]
-- 
2.43.0


From 8b4ad99af797a80b81afa7f43e9a24d94c4b0815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 29/51] fix: zero normalization pixels no longer divide the
 calibration data by zero

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 3ad7442..adf84f9 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -486,7 +486,7 @@ def calculate_demodulation_tensor(
         normalizing_S = np.array(_)
 
     # correct S=0 error
-    normalizing_S = np.where(normalizing_S >= 0, normalizing_S, 1)
+    normalizing_S = np.where(normalizing_S > 0, normalizing_S, 1)
 
     if DEBUG:
         procs_grid = [1, 1]
-- 
2.43.0


From 4b12118f5310c89aa99acd6099b060a614ba9090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 30/51] fix: calculate_demodulation_tensor() rejects
 orientation and file lists of different lengths

---
 micropolarray/processing/demodulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index adf84f9..23eaca5 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -308,6 +308,11 @@ def calculate_demodulation_tensor(
 
     correct_ifov = False
 
+    if len(polarizer_orientations) != len(filenames_list):
+        raise ValueError(
+            f"Number of polarizer orientations ({len(polarizer_orientations)}) does not match number of files ({len(filenames_list)})."
+        )
+
     output_path = Path(output_dir)
     if not output_path.is_dir():  # create the path if it doesnt exist
         output_path.mkdir(parents=True)
-- 
2.43.0


From 317e6026e11593145d6509e212840b780867a1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 31/51] fix: get_malus_normalization(show_hist=True) returns
 instead of exiting the interpreter

---
 micropolarray/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index 7473eab..3a70430 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -303,6 +303,5 @@ def get_malus_normalization(four_peaks_images, show_hist=False):
         ax.set_ylabel("Counts")
         ax.legend()
         plt.show()
-        sys.exit()
 
     return normalizing_S
-- 
2.43.0


From c23f0ef992bb2c37ade367951bdfd1b656eaa9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 32/51] fix: a demodulation folder without any matrix file is
 rejected with a ValueError

---
 micropolarray/processing/demodulation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 23eaca5..15971be 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -149,6 +149,7 @@ class Demodulator:
             raise FileNotFoundError("self.demo_matrices_path not found.")
 
         # look for first matrix file and get dimensions
+        sample_matrix = None
         filenames_list = glob.glob(self.demo_matrices_path + os.path.sep + "*.fits")
         if not filenames_list:
             raise FileNotFoundError("No fits files in selected folder.")
@@ -158,6 +159,10 @@ class Demodulator:
                 with fits.open(filename) as firsthul:
                     sample_matrix = np.array(firsthul[0].data)
                 break
+        if sample_matrix is None:
+            raise ValueError(
+                "Missing matrices in the selected folder. Check correct folder name and files pattern '*ij*.fits'."
+            )
 
         Mij = np.zeros(
             shape=(
-- 
2.43.0


From e9d56e8e6efd1eaeddcc682acf448e7a38d3feb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 33/51] fix: a demodulation folder with duplicated and missing
 matrices is rejected instead of using zero matrices

---
 micropolarray/processing/demodulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 15971be..b63c3ba 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -176,6 +176,7 @@ class Demodulator:
         fit_found_flags = None
 
         matches = 0
+        found_indexes = set()
         for filename in filenames_list:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
@@ -184,13 +185,14 @@ class Demodulator:
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                found_indexes.add((i, j))
                 with fits.open(filename) as hul:
                     Mij[i, j] = hul[0].data
             if Path(filename).stem == "fit_found_flag":
                 with fits.open(filename) as hul:
                     fit_found_flags = hul[0].data
 
-        if matches != 12:
+        if matches != 12 or len(found_indexes) != 12:
             raise ValueError(
                 "Missing matrices in the selected folder. Check correct folder name and files pattern '*ij*.fits'."
             )
-- 
2.43.0


From 8c0c9df9377878a257f6d9c81df7a4fb85de5912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 34/51] fix: align_keywords_and_data() no longer modifies the
 caller's header

---
 micropolarray/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index 3a70430..9fbe8c4 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -170,6 +170,7 @@ def align_keywords_and_data(header, data, sun_center, platescale, binning=1):
         header, data: new fixed header and data
     """
 
+    header = header.copy()  # don't modify the input header
     single_pol_images = split_polarizations(data)
     # data = np.rot90(data, k=-1)
     # data = np.flip(data, axis=0)
-- 
2.43.0


From 3cbd916604ae4678f3a539bf053936d485ec72d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 35/51] fix: a series of normalizing images is sorted together
 with the files it normalizes

---
 micropolarray/processing/demodulation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index b63c3ba..6ed1925 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -335,6 +335,13 @@ def calculate_demodulation_tensor(
             f"Each one among (0, 45, 90, -45 / 135) polarizations must be included in the polarizer orientation array. Provided {polarizer_orientations}"
         )  # for calculating normalizing_S
 
+    if isinstance(normalizing_S, np.ndarray) and normalizing_S.ndim == 3:
+        # series of images, must follow the order of the files
+        order = sorted(
+            range(len(filenames_list)),
+            key=lambda i: (polarizer_orientations[i], filenames_list[i]),
+        )
+        normalizing_S = normalizing_S[order]
     polarizer_orientations, filenames_list = (
         list(t) for t in zip(*sorted(zip(polarizer_orientations, filenames_list)))
     )
-- 
2.43.0


From a713360146846cf5d182814aa645c63525c44558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 36/51] fix: line selections reach the end point despite
 rounding of the increments

---
 micropolarray/processing/linear_roi.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index e892f72..1f8b4c4 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -120,8 +120,6 @@ def DDA(start: list, end: list) -> np.ndarray:
         step = np.abs(dx)
     else:
         step = np.abs(dy)
-    dx = dx / step
-    dy = dy / step
     x = x1
     y = y1
     xs = [int(x)]
@@ -129,9 +127,11 @@ def DDA(start: list, end: list) -> np.ndarray:
 
     i = 0
     while i < step:
-        x = x + dx
-        y = y + dy
         i = i + 1
+        # always from the start point, summing increments would accumulate
+        # rounding errors and miss the end point
+        x = x1 + i * dx / step
+        y = y1 + i * dy / step
         # if (int(y) != ys[-1]) and (int(x) != xs[-1]):
         ys.append(int(y))
         xs.append(int(x))
-- 
2.43.0


From e5dd49c8b91f3a54d617623f367a9b190df074b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:21 +0000
Subject: [PATCH 37/51] fix: calculate_demodulation_tensor(DEBUG=True) returns
 instead of ending the calling process

---
 micropolarray/processing/demodulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 6ed1925..f81aa1d 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -735,7 +735,7 @@ def calculate_demodulation_tensor(
 
     if DEBUG:
         # prevents overwriting
-        sys.exit()
+        return
 
     # if not os.path.exists(output_dir):
     #    p = Path(output_dir)
-- 
2.43.0


From 76254ff4040afe3518d525104bd530e421ecccaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:01 +0000
Subject: [PATCH 38/51] fix: demodulate rejects matrices that would be
 broadcast over the image

---
 micropolarray/micropol_image.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/micropolarray/micropol_image.py b/micropolarray/micropol_image.py
index e2adb46..bd98811 100644
--- a/micropolarray/micropol_image.py
+++ b/micropolarray/micropol_image.py
@@ -372,6 +372,11 @@ class MicropolImage(Image):
         U = T_ij[2, 0] + T_ij[2, 1] + T_ij[2, 2] + T_ij[2, 3]
         """
 
+        if mij.shape[-2:] != splitted_pols.shape[-2:]:
+            raise ValueError(
+                f"demodulation matrix {mij.shape[-2:]} and images {splitted_pols.shape[-2:]} have different shapes. Check that binning is correct."
+            )  # matrices with a single row or column would be broadcast
+
         I, Q, U = np.matmul(
             mij,
             np.expand_dims(splitted_pols, axis=0),
-- 
2.43.0


From 38070af0688ac7de66236469c58476bd08c98264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:47 +0000
Subject: [PATCH 39/51] fix: a polar selection starting from radius 0 includes
 its center

---
 micropolarray/processing/nrgf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index 7e5e35f..c3197e6 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -54,6 +54,9 @@ def roi_from_polar(
         center[0] = int(center[0] / 2)
         center[1] = int(center[1] / 2)
 
+    if rho[0] <= 0:
+        rho_min = -1  # a selection starting from the center includes the center
+
     rho_coords, phi_coords = map_polar_coordinates(
         height,
         width,
-- 
2.43.0


From 9af44fecda03fe95a0fd430dbcc285d6424a841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 40/51] fix: reduced chi-square of the Malus fits uses squared
 errors and the number of fitted parameters

---
 micropolarray/processing/demodulation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index f81aa1d..3cab928 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -795,13 +795,11 @@ def compute_demodulation_by_chunk(
     N_MALUS_PARAMS = 3
     N_PIXELS_IN_SUPERPIX = 4
 
-    dof = len(polarizer_orientations) - 2
+    dof = len(polarizer_orientations) - N_MALUS_PARAMS
     if tk_boundary is None:
         tk_boundary = [0.5, 0.1, 1.0 - 1.0e-6]
-        dof -= 1
     if eff_boundary is None:
         eff_boundary = [0.5, 0.1, 1.0 - 1.0e-6]
-        dof -= 1
 
     # Preemptly compute the theoretical demo matrix to save time
     theo_modulation_matrix = np.array(
@@ -938,7 +936,10 @@ def compute_demodulation_by_chunk(
                             - normalized_superpix_arr[:, pixel_num]
                         )
                         chisq[pixel_num] = (
-                            np.sum((residuals * residuals) / sigma_pix[:, pixel_num])
+                            np.sum(
+                                (residuals * residuals)
+                                / (sigma_pix[:, pixel_num] * sigma_pix[:, pixel_num])
+                            )
                             / dof
                         )
 
-- 
2.43.0


From 020bcf6629d8e92d352b8fc73f6e2d2bac20b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 41/51] fix: error on AoLP is defined where Q is 0

---
 micropolarray/processing/demodulation_errors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/micropolarray/processing/demodulation_errors.py b/micropolarray/processing/demodulation_errors.py
index 6df8ef3..d9ae1ba 100644
--- a/micropolarray/processing/demodulation_errors.py
+++ b/micropolarray/processing/demodulation_errors.py
@@ -78,8 +78,9 @@ def get_error_on_AoLP(S: np.ndarray, sigma_S: np.ndarray) -> np.ndarray:
     I, Q, U = S
     sigma_I, sigma_Q, sigma_U = sigma_S
 
-    aolp_var = (sigma_U * sigma_U + sigma_Q * sigma_Q * U * U / (Q * Q)) / (
-        4 * Q * Q * (1 + (U * U / (Q * Q))) * (1 + (U * U / (Q * Q)))
+    # no division by Q alone, which can be 0
+    aolp_var = (Q * Q * sigma_U * sigma_U + U * U * sigma_Q * sigma_Q) / (
+        4 * (Q * Q + U * U) * (Q * Q + U * U)
     )
 
     return np.sqrt(aolp_var)
-- 
2.43.0


From bea166773b77ae878ee9650610e8285a3223ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 42/51] fix: polar line selections stay inside of the image and
 reach its border

---
 micropolarray/processing/linear_roi.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/micropolarray/processing/linear_roi.py b/micropolarray/processing/linear_roi.py
index 1f8b4c4..57d8aee 100644
--- a/micropolarray/processing/linear_roi.py
+++ b/micropolarray/processing/linear_roi.py
@@ -48,26 +48,19 @@ def linear_roi_from_polar(
 
     # keep running along theta from center until end of image is reached to get end of line
     while (
-        # (y2 < data.shape[0] - 1)
         (y2 < data.shape[0])
-        and (y2 > 1)
-        # and (x2 < data.shape[1] - 1)
+        and (y2 >= 0)
         and (x2 < data.shape[1])
-        and (x2 > 1)
+        and (x2 >= 0)
         and (np.sqrt((x2 - center[1]) ** 2 + (y2 - center[0]) ** 2) < r[1] - 1)
     ):
         y2 = y2 - np.sin(theta_rad)
         x2 = x2 + np.cos(theta_rad)
 
     ys, xs, points_density = DDA((y1, x1), (y2, x2))
-    while (
-        (ys[-1] >= data.shape[0])
-        or (xs[-1] >= data.shape[1])
-        or (ys[-1] < 0)
-        or (xs[-1] < 0)
-    ):
-        ys = ys[:-2]
-        xs = xs[:-2]
+    # keep only the points inside the image
+    inside = (ys >= 0) & (ys < data.shape[0]) & (xs >= 0) & (xs < data.shape[1])
+    ys, xs = ys[inside], xs[inside]
 
     result = np.array([data[y, x] for y, x in zip(ys, xs)])
 
-- 
2.43.0


From 5d5000255a487888e9ff6b1027d5c3d4149e1bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 43/51] fix: find_occulter_hough() scales 16 bit integer frames
 without wrapping around

---
 micropolarray/processing/nrgf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index c3197e6..a0a3c8b 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -193,7 +193,7 @@ def find_occulter_hough(
         maxr = np.max(data.shape)
     minDist = np.max(data.shape)  # minimum distance between circles
 
-    data = 255 * data / np.max(data)
+    data = 255 * (data / np.max(data))
     blurred = cv2.medianBlur(data.astype("uint8"), 5)
     accumulator = 10
     circles = cv2.HoughCircles(
-- 
2.43.0


From 7e845dbdefdcece694b056c6424c7b3b9a92d073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 44/51] fix: Chen-Wan-Liang calibration and correction of
 integer frames neither wrap around nor truncate

---
 micropolarray/processing/chen_wan_liang_calibration.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/micropolarray/processing/chen_wan_liang_calibration.py b/micropolarray/processing/chen_wan_liang_calibration.py
index 44f0164..e5f572c 100644
--- a/micropolarray/processing/chen_wan_liang_calibration.py
+++ b/micropolarray/processing/chen_wan_liang_calibration.py
@@ -61,7 +61,7 @@ def calculate_chen_wan_lian_calibration(
 
     with fits.open(filenames_list[0]) as file:
         data = file[0].data  # get data dimension
-    occulter_flag = np.ones_like(data)  # 0 if not a occulted px, 1 otherwise
+    occulter_flag = np.ones_like(data, dtype=float)  # 0 if not a occulted px, 1 otherwise
     if occulter:
         # Mean values from coronal observations 2022_12_03
         # (campagna_2022/mean_occulter_pos.py)
@@ -87,11 +87,11 @@ def calculate_chen_wan_lian_calibration(
     # Collect dark
     if dark_filename:
         with fits.open(dark_filename) as file:
-            dark = file[0].data
+            dark = np.array(file[0].data, dtype=float)
     # Collect flat field, normalize it
     if flat_filename:
         with fits.open(flat_filename) as file:
-            flat = file[0].data
+            flat = np.array(file[0].data, dtype=float)
     if flat_filename and dark_filename:
         flat -= dark  # correct flat too
         flat = np.where(flat > 0, flat, 1.0)
@@ -105,7 +105,7 @@ def calculate_chen_wan_lian_calibration(
     all_data_arr = [0.0] * filenames_n
     for idx, filename in enumerate(filenames_list):
         with fits.open(filename) as file:
-            all_data_arr[idx] = file[0].data
+            all_data_arr[idx] = np.array(file[0].data, dtype=float)
             if dark_filename is not None:
                 all_data_arr[idx] -= dark
                 all_data_arr[idx] = np.where(
@@ -269,6 +269,7 @@ def chen_wan_liang_calibration(data, calibration_matrices_dir: str):
         np.array: calibrated data
     """
     info("Applying Chen-Wan-Liang correction...")
+    data = np.array(data, dtype=float)  # integers would be truncated
     height, width = data.shape
     C_ij = np.zeros(shape=(4, 4, height, width))
     d_ij = np.zeros_like(data)
-- 
2.43.0


From c205d7b6c547559f093a9e7104544d24c962729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 45/51] fix: images of integer arrays do not wrap around in
 dark subtraction and arithmetic

---
 micropolarray/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/micropolarray/image.py b/micropolarray/image.py
index 7afa71e..972e1b4 100644
--- a/micropolarray/image.py
+++ b/micropolarray/image.py
@@ -36,7 +36,7 @@ class Image:
             )
 
     def _init_image_from_data(self, input_data: np.array) -> None:
-        self.data = np.array(input_data)
+        self.data = np.array(input_data, dtype=float)  # integers would wrap around
         self.filename = "image.fits"
 
     def _init_image_from_file(self, filenames, averageimages) -> None:
-- 
2.43.0


From ea15762630e8954b3857d1f5e06ceff381c96ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:56 +0000
Subject: [PATCH 46/51] fix: an incomplete covariance tensor with duplicated
 elements is rejected instead of using zeros

---
 micropolarray/processing/demodulation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index 3cab928..c899eb2 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -62,6 +62,7 @@ class Demodulator:
         )
 
         matches = 0
+        found_indexes = set()
         for filename in covariance_tensor_fnames:
             pattern_query = re.search("[0-9]{2}", filename.split(os.path.sep)[-1])
             if pattern_query is not None:  # Exclude files not matching m/Mij
@@ -70,10 +71,12 @@ class Demodulator:
                     -2:
                 ]  # Searches for pattern ij as last string before .fits
                 i, j = int(i), int(j)
+                found_indexes.add((i, j))
                 with fits.open(filename) as hul:
                     Cij[i, j] = hul[0].data
 
-        if matches != (self.n_malus_params * self.n_malus_params):
+        elements_n = self.n_malus_params * self.n_malus_params
+        if matches != elements_n or len(found_indexes) != elements_n:
             raise ValueError("Incomplete covariance tensor in the selected folder. ")
 
         return Cij
-- 
2.43.0


From 87499ea83243eb20e7c314149f60d132355aeca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:39 +0000
Subject: [PATCH 47/51] fix: rotating and flipping a demodulator carries its
 fit flags along, and odd rotations of non-square tensors work

---
 micropolarray/processing/demodulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index c899eb2..cd95d1e 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -266,14 +266,16 @@ class Demodulator:
 
     def rot90(self, k=1):
         # NB: rotation could switch micropol positions inside superpixel, but for demo matrix all px in superpix are equal
-        for i in range(self.n_malus_params):
-            for j in range(self.n_pixels_in_superpix):
-                self.mij[i, j] = np.rot90(self.mij[i, j], k=k)
+        self.mij = np.rot90(self.mij, k=k, axes=(2, 3)).copy()
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.rot90(self.fit_found_flags, k=k).copy()
 
     def flip(self, axis):
         for i in range(self.n_malus_params):
             for j in range(self.n_pixels_in_superpix):
                 self.mij[i, j] = np.flip(self.mij[i, j], axis=axis)
+        if self.fit_found_flags is not None:
+            self.fit_found_flags = np.flip(self.fit_found_flags, axis=axis).copy()
 
 
 def calculate_demodulation_tensor(
-- 
2.43.0


From a7ef7449ff32a6eebb0725736add10a724ec0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 48/51] fix: resampling from or to a single sample per family
 does not give NaN

---
 micropolarray/processing/congrid.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/congrid.py b/micropolarray/processing/congrid.py
index eca416e..9e9a6a3 100644
--- a/micropolarray/processing/congrid.py
+++ b/micropolarray/processing/congrid.py
@@ -51,7 +51,12 @@ def congrid(a, newdims, kind="linear") -> np.ndarray:
     # Linear method, default
     for i in range(ndims):
         base = np.arange(newdims[i])
-        dimlist.append((old[i] - m1) / (newdims[i] - m1) * base)
+        dimlist.append((old[i] - m1) / max(newdims[i] - m1, 1) * base)
+
+    # a single sample can't be interpolated, repeat it
+    for i in range(ndims):
+        if old[i] == 1:
+            a = np.repeat(a, 2, axis=i)
 
     olddims = [np.arange(i, dtype=float) for i in list(a.shape)]
     mint = scipy.interpolate.interp1d(
-- 
2.43.0


From cf673a0fb8e0636f9530ace7714c4558d085f8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:02 +0000
Subject: [PATCH 49/51] fix: nrgf discarded the given centre when the starting
 radius was omitted

---
 micropolarray/processing/nrgf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/micropolarray/processing/nrgf.py b/micropolarray/processing/nrgf.py
index a0a3c8b..97d0abf 100644
--- a/micropolarray/processing/nrgf.py
+++ b/micropolarray/processing/nrgf.py
@@ -135,7 +135,11 @@ def nrgf(
 
     if (y_center is None) or (x_center is None) or (rho_min is None):
         info("Calculating occulter position...")
-        y_center, x_center, rho_min = find_occulter_position(data)
+        occulter_y, occulter_x, occulter_r = find_occulter_position(data)
+        # keep the values that were given
+        y_center = occulter_y if y_center is None else y_center
+        x_center = occulter_x if x_center is None else x_center
+        rho_min = occulter_r if rho_min is None else rho_min
     center = [int(y_center), int(x_center)]
 
     newdata = np.zeros(shape=data.shape, dtype=float)
-- 
2.43.0


From 2bacf1e4781589b8818f29199ebab6d544ab0673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:06 +0000
Subject: [PATCH 50/51] fix: get_malus_normalization failed when the highest
 bin was near an end of the histogram

---
 micropolarray/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/micropolarray/utils.py b/micropolarray/utils.py
index 9fbe8c4..5e16254 100644
--- a/micropolarray/utils.py
+++ b/micropolarray/utils.py
@@ -266,18 +266,20 @@ def get_malus_normalization(four_peaks_images, show_hist=False):
         return norm * np.exp(-((x - x_0) ** 2) / (4 * sigma**2))
 
     hist_roi = 10  # bins around max value
-    xvalues = np.array(histo[1])[index - hist_roi : index + hist_roi]
-    yvalues = np.array(histo[0])[index - hist_roi : index + hist_roi]
+    first = max(index - hist_roi, 0)  # the max can be near an end
+    last = min(index + hist_roi, bins)
+    peak = index - first
+    xvalues = np.array(histo[1])[first:last]
+    yvalues = np.array(histo[0])[first:last]
     yvalues_sum = np.sum(yvalues)
     yvalues = yvalues / yvalues_sum
     xvalues = np.array(
         [value + (xvalues[1] - xvalues[0]) / 2 for value in xvalues]
     )  # shift each bin to center
     prediction = [
-        yvalues[int(len(yvalues) / 2)],  # normalization
-        xvalues[int(len(xvalues) / 2)],  # center
-        xvalues[int(len(xvalues) / 2) + int(hist_roi / 2)]
-        - xvalues[int(len(xvalues) / 2)],  # sigma
+        yvalues[peak],  # normalization
+        xvalues[peak],  # center
+        (xvalues[1] - xvalues[0]) * int(hist_roi / 2),  # sigma
     ]
     params, cov = curve_fit(
         gauss,
-- 
2.43.0


From b5cfc644f0434bf75622e60106b5488fde168646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:41 +0000
Subject: [PATCH 51/51] fix: the calibration failed when the highest bin of the
 signal distribution was near an end

---
 micropolarray/processing/demodulation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/micropolarray/processing/demodulation.py b/micropolarray/processing/demodulation.py
index cd95d1e..9c85884 100644
--- a/micropolarray/processing/demodulation.py
+++ b/micropolarray/processing/demodulation.py
@@ -469,8 +469,11 @@ def calculate_demodulation_tensor(
             return norm * np.exp(-((x - x_0) ** 2) / (4 * sigma**2))
 
         hist_roi = 10  # bins around max value
-        xvalues = np.array(histo[1])[index - hist_roi : index + hist_roi]
-        yvalues = np.array(histo[0])[index - hist_roi : index + hist_roi]
+        first = max(index - hist_roi, 0)  # the max can be near an end
+        last = min(index + hist_roi, bins)
+        peak = index - first
+        xvalues = np.array(histo[1])[first:last]
+        yvalues = np.array(histo[0])[first:last]
         yvalues_sum = np.sum(yvalues)
 
         yvalues = yvalues / yvalues_sum
@@ -478,10 +481,9 @@ def calculate_demodulation_tensor(
             [value + (xvalues[1] - xvalues[0]) / 2 for value in xvalues]
         )  # shift each bin to center
         prediction = [
-            yvalues[int(len(yvalues) / 2)],  # normalization
-            xvalues[int(len(xvalues) / 2)],  # center
-            xvalues[int(len(xvalues) / 2) + int(hist_roi / 2)]
-            - xvalues[int(len(xvalues) / 2)],  # sigma
+            yvalues[peak],  # normalization
+            xvalues[peak],  # center
+            (xvalues[1] - xvalues[0]) * int(hist_roi / 2),  # sigma
         ]
         params, cov = curve_fit(
             gauss,
-- 
2.43.0

