From e06eba82b89ef7ed0275641111f07212a8f807a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:16 +0000
Subject: [PATCH 01/24] fix: look up a band by wavelength in wavenumber space

RadTbConverter(..., band=<wavelength>, wavespace='wavenumber') raised KeyError
because the responses converted to wavenumbers carry no central wavelength.
---
 pyspectral/radiance_tb_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 97a925e..0e352a7 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -129,7 +129,7 @@ class RadTbConverter(object):
             self.bandname = BANDNAMES.get(self.instrument, BANDNAMES['generic']).get(self.band, self.band)
         elif isinstance(self.band, Number):
             self.bandwavelength = self.band
-            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, self.rsr)
+            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, sensor.rsr)
 
         self.wavelength_or_wavenumber = (self.rsr[self.bandname][self.detector][self.wavespace] *
                                          self._wave_si_scale)
-- 
2.43.0


From 316926b475b6153493a5ef0ac947bb5a852c6601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:34 +0000
Subject: [PATCH 02/24] fix: a NaN brightness temperature has no radiance in
 the look-up table

The cast of NaN to an integer index gave an arbitrary valid radiance, so that
the near-infrared reflectance of a pixel with an invalid thermal temperature
was a valid looking number.
---
 pyspectral/radiance_tb_conversion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 0e352a7..2f44c23 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -188,6 +188,8 @@ class RadTbConverter(object):
                 retv['radiance'] = index.map_blocks(self._getitem, lut_radiance, dtype=lut_radiance.dtype)
             except AttributeError:
                 retv['radiance'] = lut_radiance[index]
+            # The integer cast turns an invalid temperature into a valid index
+            retv['radiance'] = np.where(np.isnan(tb_), tb_, retv['radiance'])
             try:
                 retv['radiance'] = retv['radiance'].item()
             except (ValueError, AttributeError):
-- 
2.43.0


From 55f95e9e13abdf2eddde8876eb5e3c95175b8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:53 +0000
Subject: [PATCH 03/24] fix: masked pixels have no near-infrared reflectance

The mask of a masked array was ignored by the dask functions, so that masked
pixels got a reflectance derived from whatever was below the mask.
---
 pyspectral/near_infrared_reflectance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index ef33ba0..15c3416 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -290,4 +290,8 @@ def get_as_array(variable):
     if np.isscalar(variable):
         return asanyarray([variable, ])
 
+    if isinstance(variable, np.ma.MaskedArray):
+        # The dask functions used here ignore masks: use NaN where there are no data
+        variable = variable.astype(np.result_type(variable, np.float32)).filled(np.nan)
+
     return asanyarray(variable)
-- 
2.43.0


From fee715bf1cc36077c94ba797b8b18958f14fe66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:53 +0000
Subject: [PATCH 04/24] fix: keep one Tb-to-radiance table per detector

The automatic file name did not include the detector, so that a table made
from the response of another detector was silently reused.
---
 pyspectral/near_infrared_reflectance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 15c3416..6b44171 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -96,6 +96,9 @@ class Calculator(RadTbConverter):
                       "Will generate filename automatically")
             lutname = "tb2rad_lut_{0}_{1}_{band}".format(
                 self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower())
+            if self.detector != "det-1":
+                # The table depends on the spectral response of the detector
+                lutname = lutname + "_" + self.detector.lower()
             self.lutfile = os.path.join(tb2rad_dir, lutname + ".npz")
 
     def _lutfile_from_config(self, options, tb2rad_dir):
-- 
2.43.0


From eb4c601aa40aa0a188b32d6721dace848eb0e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:44 +0000
Subject: [PATCH 05/24] fix: write the wavelengths, not the responses, to the
 RSR file

convert2hdf5 stored the responses in the wavelength dataset.
---
 pyspectral/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 14a9dca..9233963 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -327,7 +327,7 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     dset = grp.create_dataset("response", arr.shape, dtype="f")
     dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr["wavelength"], scale)
 
 
 def _save_wavelengths(grp, arr, scale):
@@ -350,7 +350,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
 
-    _save_wavelengths(grp, arr, scale)
+    _save_wavelengths(grp, sensor.rsr[detectors[0]]["wavelength"], scale)
 
 
 def download_rsr(dest_dir: str | Path | None = None, dry_run: bool = False) -> None:
-- 
2.43.0


From d30afa6a64b14bfacfc9e86f3536a9c574b84757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:13 +0000
Subject: [PATCH 06/24] fix: no Rayleigh correction for numpy angles outside
 the table's wavelengths

Without a red band the result is a plain numpy array already, and asking it
to compute itself raised an AttributeError.
---
 pyspectral/rayleigh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index caa585e..11b6ee4 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -237,7 +237,7 @@ class Rayleigh(RayleighConfigBaseClass):
                                              chunks=getattr(res, "chunks", None))
 
         res = np.clip(res, 0, 100)
-        if compute:
+        if compute and hasattr(res, "compute"):
             res = res.compute()
         return res
 
-- 
2.43.0


From 92e31faf2ae1b3fa38ec4c2f2f0d06985016305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:19 +0000
Subject: [PATCH 07/24] fix: limb correction of numpy arrays without a mask

viewzen_corr documents numpy (masked) arrays, but a plain array has no mask
attribute and raised an AttributeError.
---
 pyspectral/atm_correction_ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/atm_correction_ir.py b/pyspectral/atm_correction_ir.py
index c19df0e..0fb606f 100644
--- a/pyspectral/atm_correction_ir.py
+++ b/pyspectral/atm_correction_ir.py
@@ -124,7 +124,7 @@ def viewzen_corr(data, view_zen):
     y0, x0 = np.ma.where(view_zen == 0)
     data[y0, x0] += tau0(data[y0, x0])
 
-    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & (~data.mask))
+    y, x = np.ma.where((view_zen > 0) & (view_zen < 90) & (~np.ma.getmaskarray(data)))
     data[y, x] += tau(data[y, x]) * delta(view_zen[y, x])
     return data
 
-- 
2.43.0


From f86f003fadb993941cb8e107751a5687f34f345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:44 +0000
Subject: [PATCH 08/24] fix: in-band solar flux of the calculator's own
 detector

The solar flux was always derived from the first detector's spectral
response, whatever detector the calculator was asked for.
---
 pyspectral/near_infrared_reflectance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 6b44171..57e8d9a 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -159,7 +159,7 @@ class Calculator(RadTbConverter):
         solar_spectrum = \
             SolarIrradianceSpectrum(dlambda=0.0005,
                                     wavespace=self.wavespace)
-        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname])
+        self.solar_flux = solar_spectrum.inband_solarflux(self.rsr[self.bandname][self.detector])
 
     def emissive_part_3x(self, tb=True):
         """Get the emissive part of the 3.x band."""
-- 
2.43.0


From c2357f7b3292c12368cfdd840ea1966d8d549713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:09 +0000
Subject: [PATCH 09/24] fix: look up temperatures in fine Tb-radiance tables
 without integer overflow

The index was computed in 16-bit integers, so that with a temperature
resolution of 0.01 K temperatures above 327.67 K (and with the default of
0.1 K those above 3276.7 K) wrapped around and got the first entry of the
table.
---
 pyspectral/radiance_tb_conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 2f44c23..51219b1 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -179,7 +179,7 @@ class RadTbConverter(object):
 
         if lut:
             lut_radiance = lut['radiance'].astype(tb_.dtype)
-            ntb = (tb_ * self.tb_scale).astype('int16')
+            ntb = (tb_ * self.tb_scale).astype('int32')
             start = int(lut['tb'][0] * self.tb_scale)
             retv = {}
             bounds = 0, lut_radiance.shape[0] - 1
-- 
2.43.0


From 343567da2ca2611b0a831dad1a58dd73d7dc2384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:40 +0000
Subject: [PATCH 10/24] fix: brightness temperature of scalar and integer
 radiances

blackbody_rad2temp documents that scalars are accepted, but a plain number
raised AttributeError, and for integer radiances the wavelength was
converted to an integer, that is to zero.
---
 pyspectral/blackbody.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyspectral/blackbody.py b/pyspectral/blackbody.py
index cbfcfbd..0f676dc 100644
--- a/pyspectral/blackbody.py
+++ b/pyspectral/blackbody.py
@@ -35,9 +35,11 @@ def blackbody_rad2temp(wavelength, radiance):
         The derived temperature in Kelvin.
 
     """
-    if getattr(wavelength, "dtype", None) != radiance.dtype:
+    radiance_dtype = getattr(radiance, "dtype", None)
+    if radiance_dtype is not None and np.issubdtype(radiance_dtype, np.floating) and \
+            getattr(wavelength, "dtype", None) != radiance_dtype:
         # avoid a wavelength numpy scalar upcasting radiances (ex. 32-bit to 64-bit float)
-        wavelength = radiance.dtype.type(wavelength)
+        wavelength = radiance_dtype.type(wavelength)
     with np.errstate(divide='ignore', invalid='ignore'):
         return PLANCK_C1 / (wavelength * np.log(PLANCK_C2 / (radiance * wavelength**5) + 1.0))
 
-- 
2.43.0


From 6f91d76b617434b38e937f817cad97ddde5a2d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:43 +0000
Subject: [PATCH 11/24] fix: inverse Planck functions with the radiance given
 by keyword

The wrapper only looked at positional arguments: IndexError.
---
 pyspectral/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 9233963..7d4d17b 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -8,7 +8,7 @@ import sys
 import tarfile
 import warnings
 from functools import wraps
-from inspect import getfullargspec
+from inspect import getfullargspec, signature
 from pathlib import Path
 
 import numpy as np
@@ -679,6 +679,9 @@ def use_map_blocks_on(argument_to_run_map_blocks_on):
 
         @wraps(f)
         def wrapper(*args, **kwargs):
+            # the argument may be given by keyword
+            bound = signature(f).bind(*args, **kwargs)
+            args, kwargs = bound.args, bound.kwargs
             array = args[argument_index]
             chunks = getattr(array, "chunks", None)
             if chunks is None:
-- 
2.43.0


From ad4f32ba15f08d52cf25074ea3e15d3990869e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:37 +0000
Subject: [PATCH 12/24] fix: 3.x um reflectance of integer brightness
 temperatures

Radiances were converted to the dtype of the temperatures, so that integer
temperatures (also plain numbers like 290) gave NaN or wrong reflectances.
---
 pyspectral/near_infrared_reflectance.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pyspectral/near_infrared_reflectance.py b/pyspectral/near_infrared_reflectance.py
index 57e8d9a..9dd5c45 100644
--- a/pyspectral/near_infrared_reflectance.py
+++ b/pyspectral/near_infrared_reflectance.py
@@ -205,8 +205,8 @@ class Calculator(RadTbConverter):
         if not self.rsr:
             raise NotImplementedError("Reflectance calculations without rsr not yet supported!")
 
-        tb_nir = get_as_array(tb_near_ir)
-        tb_therm = get_as_array(tb_thermal)
+        tb_nir = _get_as_float_array(tb_near_ir)
+        tb_therm = _get_as_float_array(tb_thermal)
         if tb_therm.shape != tb_nir.shape:
             raise ValueError(f"Dimensions do not match! {tb_therm.shape} and {tb_nir.shape}")
 
@@ -226,7 +226,7 @@ class Calculator(RadTbConverter):
         tbco2 = None
         if tb_ir_co2 is not None:
             co2corr = True
-            tbco2 = get_as_array(tb_ir_co2)
+            tbco2 = _get_as_float_array(tb_ir_co2)
 
         # Assume rsr is in microns!!!
         # FIXME!
@@ -285,6 +285,15 @@ class Calculator(RadTbConverter):
         self._r3x = where(mask, np.nan, data)
 
 
+def _get_as_float_array(variable):
+    """Return variable as a Dask or Numpy array of floating point numbers."""
+    array = get_as_array(variable)
+    if np.issubdtype(array.dtype, np.floating):
+        return array
+    # radiances and reflectances would be truncated to integers
+    return array.astype(np.float64)
+
+
 def get_as_array(variable):
     """Return variable as a Dask or Numpy array.
 
-- 
2.43.0


From 21b3bb35c2b22039999b3415f14dc0aad0cb99e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:41 +0000
Subject: [PATCH 13/24] fix: look up radiances of integer brightness
 temperatures without truncation

The table was converted to the dtype of the temperatures: with integers all
radiances per wavenumber became zero.
---
 pyspectral/radiance_tb_conversion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 51219b1..1c79cce 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -178,7 +178,9 @@ class RadTbConverter(object):
             scale = 1.0
 
         if lut:
-            lut_radiance = lut['radiance'].astype(tb_.dtype)
+            lut_radiance = lut['radiance']
+            if np.issubdtype(tb_.dtype, np.floating):
+                lut_radiance = lut_radiance.astype(tb_.dtype)
             ntb = (tb_ * self.tb_scale).astype('int32')
             start = int(lut['tb'][0] * self.tb_scale)
             retv = {}
-- 
2.43.0


From 1304a971a280752d97be23f72d08e0a8bdf77477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:29 +0000
Subject: [PATCH 14/24] fix: Rayleigh correction for integer angles and red
 band reflectances

The look-up table was converted to the dtype of the angles or the red band,
which the interpolation refuses for integers (TypeError).
---
 pyspectral/rayleigh.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyspectral/rayleigh.py b/pyspectral/rayleigh.py
index 11b6ee4..6c099fc 100644
--- a/pyspectral/rayleigh.py
+++ b/pyspectral/rayleigh.py
@@ -221,12 +221,14 @@ class Rayleigh(RayleighConfigBaseClass):
             zeros_like = np.zeros_like if isinstance(repr_arr, np.ndarray) else da.zeros_like
             res = zeros_like(repr_arr)
         else:
-            rayleigh_refl = rayleigh_refl.astype(repr_arr.dtype, copy=False)
+            # the interpolation needs floating point numbers, also for integer angles or reflectances
+            refl_dtype = np.result_type(repr_arr.dtype, np.float32)
+            rayleigh_refl = rayleigh_refl.astype(refl_dtype, copy=False)
             res = _map_blocks_or_direct_call(self._interp_rayleigh_refl_by_angles,
                                              sun_zenith, sat_zenith, azidiff, rayleigh_refl,
                                              self.reflectance_lut_filename,
-                                             meta=np.array((), dtype=repr_arr.dtype),
-                                             dtype=repr_arr.dtype,
+                                             meta=np.array((), dtype=refl_dtype),
+                                             dtype=refl_dtype,
                                              chunks=getattr(azidiff, "chunks", None))
 
         if redband is not None:
-- 
2.43.0


From 014f9a11aed1c6466e7f187e733c5d273635a306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:36 +0000
Subject: [PATCH 15/24] fix: limb correction of integer brightness temperatures

Numpy arrays of integers raised UFuncTypeError, while dask arrays worked.
---
 pyspectral/atm_correction_ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/atm_correction_ir.py b/pyspectral/atm_correction_ir.py
index 0fb606f..7587da1 100644
--- a/pyspectral/atm_correction_ir.py
+++ b/pyspectral/atm_correction_ir.py
@@ -76,6 +76,8 @@ class AtmosphericalCorrection(object):
         # From band name we will eventually need the effective wavelength
         # and then use that to find the atm contribution depending on zenith
         # angle from a LUT
+        if not np.issubdtype(data.dtype, np.floating):
+            data = data.astype(np.float64)
         return viewzen_corr(data.copy(), sat_zenith)
 
 
-- 
2.43.0


From fd61a7ba5502789cc5de83c3854075ade3ed4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:15 +0000
Subject: [PATCH 16/24] fix: keep the shape of images when converting to
 radiances without a table

The radiances came back as a flat array, and the reflectance of a column of
pixels as a square image of every combination of them.
---
 pyspectral/radiance_tb_conversion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyspectral/radiance_tb_conversion.py b/pyspectral/radiance_tb_conversion.py
index 1c79cce..d4caaf8 100644
--- a/pyspectral/radiance_tb_conversion.py
+++ b/pyspectral/radiance_tb_conversion.py
@@ -205,6 +205,9 @@ class RadTbConverter(object):
             radiance = trapezoid(planck, self.wavelength_or_wavenumber) / self.rsr_integral
         else:
             radiance = trapezoid(planck, self.wavelength_or_wavenumber)
+        if np.ndim(tb_) > 1:
+            # The Planck function has one row per temperature, whatever their shape
+            radiance = radiance.reshape(tb_.shape)
 
         return {'radiance': radiance,
                 'unit': unit,
-- 
2.43.0


From 9cc422191b7d64e24f26269760686bc4dd971ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:07 +0000
Subject: [PATCH 17/24] fix: fake Rayleigh tables in a relative directory

The links to the table were broken when the directory was given as a relative path.
---
 pyspectral/testing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index 46c7fc1..abf5017 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -589,7 +589,8 @@ def _symlink_rayleigh_lut(link_path: Path) -> None:
         return
 
     rayleigh_dir = link_path.parent.parent
-    base_file = rayleigh_dir / BASE_RAYLEIGH_LUT_FILENAME
+    # a relative target would be looked up from the directory of the link
+    base_file = (rayleigh_dir / BASE_RAYLEIGH_LUT_FILENAME).resolve()
     link_path.symlink_to(base_file)
 
 
-- 
2.43.0


From b6ae8b6ac2f9e944abce205c09f52f13b3a0ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:07 +0000
Subject: [PATCH 18/24] fix: fake Rayleigh tables for types given by an
 iterator

An iterator of aerosol types or atmospheres was used up after the first round,
so that the tables of the other types were missing.
---
 pyspectral/testing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyspectral/testing.py b/pyspectral/testing.py
index abf5017..390acf3 100644
--- a/pyspectral/testing.py
+++ b/pyspectral/testing.py
@@ -419,10 +419,9 @@ def mock_rayleigh_luts(
             atmosphere types.
 
     """
-    if aerosol_types is None:
-        aerosol_types = AEROSOL_TYPES
-    if atmospheres is None:
-        atmospheres = ATMOSPHERES
+    # the iterables are gone through more than once
+    aerosol_types = list(AEROSOL_TYPES if aerosol_types is None else aerosol_types)
+    atmospheres = list(ATMOSPHERES if atmospheres is None else atmospheres)
 
     rayleigh_dir.mkdir(parents=True, exist_ok=True)
     _create_fake_rayleigh_file(
-- 
2.43.0


From 321361f80d199ec70fe5341b1cd87826e30c3792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:56 +0000
Subject: [PATCH 19/24] fix: store the sensor name in converted RSR files

Without it a file of a platform with several instruments has a list of them as
its instrument when it is read by file name, and no band can be looked up by
its alias.
---
 pyspectral/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 7d4d17b..1fc3984 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -301,6 +301,7 @@ def _write_global_attrs(h5f, instrument, platform_name, bandnames):
     h5f.attrs["description"] = ("Relative Spectral Responses for " +
                                 instrument.instrument.upper())
     h5f.attrs["platform_name"] = platform_name
+    h5f.attrs["sensor"] = instrument.instrument
     h5f.attrs["band_names"] = bandnames
 
 
-- 
2.43.0


From 139d4e8a7fdde37ce573df23c972083d3235ef45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:01 +0000
Subject: [PATCH 20/24] fix: store the central wavelength in micrometre
 whatever the scale of the RSR data

The reader takes the central wavelength of a file in micrometre, but raw data in
another unit had it stored in that unit.
---
 pyspectral/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 1fc3984..7232376 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -321,7 +321,7 @@ def _write_single_detector_data(grp, sensor, scale, detectors):
     wvl = sensor.rsr["wavelength"][~np.isnan(sensor.rsr["wavelength"])]
     # Store detector central wavelength
     rsp = sensor.rsr["response"][~np.isnan(sensor.rsr["wavelength"])]
-    grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp)
+    grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp) * (scale * 1e6)
 
     # Store resonse data
     arr = sensor.rsr["response"]
@@ -346,7 +346,7 @@ def _write_multidetector_data(grp, sensor, scale, detectors):
     for cur_det in detectors:
         det_grp = grp.create_group(cur_det)
         rsp = sensor.rsr[cur_det]["response"][~np.isnan(sensor.rsr[cur_det]["wavelength"])]
-        det_grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp)
+        det_grp.attrs["central_wavelength"] = get_central_wave(wvl, rsp) * (scale * 1e6)
         arr = sensor.rsr[cur_det]["response"]
         dset = det_grp.create_dataset("response", arr.shape, dtype="f")
         dset[...] = arr
-- 
2.43.0


From a3cf8172c0191f24a49fbb83fb718ef1dc90f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:31 +0000
Subject: [PATCH 21/24] fix: an incomplete archive replaces no data

---
 pyspectral/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyspectral/utils.py b/pyspectral/utils.py
index 7232376..a5672b5 100644
--- a/pyspectral/utils.py
+++ b/pyspectral/utils.py
@@ -457,6 +457,8 @@ def _download_tarball_and_extract(tarball_url: str, local_pathname: Path, extrac
 
     tar_kwargs = {} if sys.version_info < (3, 12) else {"filter": "data"}
     with tarfile.open(local_pathname) as tar:
+        # fail on an incomplete archive before anything is replaced
+        tar.getmembers()
         tar.extractall(extract_dir, **tar_kwargs)  # type: ignore
 
     os.remove(local_pathname)
-- 
2.43.0


From c4d45e5ad4afcbd3842b6ed9888465cc8ad3ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:48 +0000
Subject: [PATCH 22/24] fix: compare detector wavelengths with array_equal in
 the VIIRS and METimage converters (np.alltrue is gone from numpy 2)

---
 rsr_convert_scripts/metimage_rsr.py | 2 +-
 rsr_convert_scripts/viirs_rsr.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsr_convert_scripts/metimage_rsr.py b/rsr_convert_scripts/metimage_rsr.py
index 5052416..4fba01f 100644
--- a/rsr_convert_scripts/metimage_rsr.py
+++ b/rsr_convert_scripts/metimage_rsr.py
@@ -112,7 +112,7 @@ def generate_metimage_file(platform_name):
             wvl_is_constant = True
             for det in det_names[1:]:
                 det_wvl = np.unique(metimage.rsr[det]['wavelength'])
-                if not np.alltrue(wvl == det_wvl):
+                if not np.array_equal(wvl, det_wvl):
                     LOG.warning(
                         "Wavelngth arrays are not the same among detectors!")
                     wvl_is_constant = False
diff --git a/rsr_convert_scripts/viirs_rsr.py b/rsr_convert_scripts/viirs_rsr.py
index 9476572..6c0fe13 100644
--- a/rsr_convert_scripts/viirs_rsr.py
+++ b/rsr_convert_scripts/viirs_rsr.py
@@ -196,7 +196,7 @@ def create_viirs_rsr(platform_name):
             wvl_is_constant = True
             for det in det_names[1:]:
                 det_wvl = np.unique(viirs.rsr[det]['wavelength'])
-                if not np.alltrue(wvl == det_wvl):
+                if not np.array_equal(wvl, det_wvl):
                     LOG.warning(
                         "Wavelngth arrays are not the same among detectors!")
                     wvl_is_constant = False
-- 
2.43.0


From 8831cabd353792f75f2a148307bb8a52f08296ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:03 +0000
Subject: [PATCH 23/24] fix: read the text files of AMI, AVHRR, COCTS, MERSI-2
 and VIRR as records (unpack=True with names gives a list)

---
 rsr_convert_scripts/ami_reader.py | 1 -
 rsr_convert_scripts/avhrr_rsr.py  | 1 -
 rsr_convert_scripts/cocts_rsr.py  | 1 -
 rsr_convert_scripts/mersi2_rsr.py | 1 -
 rsr_convert_scripts/virr_rsr.py   | 1 -
 5 files changed, 5 deletions(-)

diff --git a/rsr_convert_scripts/ami_reader.py b/rsr_convert_scripts/ami_reader.py
index 8ed8e6b..7ad006c 100644
--- a/rsr_convert_scripts/ami_reader.py
+++ b/rsr_convert_scripts/ami_reader.py
@@ -58,7 +58,6 @@ class AmiRSR(InstrumentRSR):
     def _load(self, scale=10000.0):
         """Load the AMI RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavenumber',
                                     'response'],
                              skip_header=4)
diff --git a/rsr_convert_scripts/avhrr_rsr.py b/rsr_convert_scripts/avhrr_rsr.py
index 97f632d..573bf9c 100644
--- a/rsr_convert_scripts/avhrr_rsr.py
+++ b/rsr_convert_scripts/avhrr_rsr.py
@@ -52,7 +52,6 @@ class AvhrrRSR(InstrumentRSR):
     def _load(self, scale=1.0):
         """Load the AVHRR RSR data for the band requested."""
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=1)
diff --git a/rsr_convert_scripts/cocts_rsr.py b/rsr_convert_scripts/cocts_rsr.py
index 40d854b..a676f88 100644
--- a/rsr_convert_scripts/cocts_rsr.py
+++ b/rsr_convert_scripts/cocts_rsr.py
@@ -50,7 +50,6 @@ class COCTS_RSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength', 'ch1', 'ch2', 'ch3', 'ch4', 'ch5', 'ch6', 'ch7', 'ch8'],
                              skip_header=0)
 
diff --git a/rsr_convert_scripts/mersi2_rsr.py b/rsr_convert_scripts/mersi2_rsr.py
index c58597b..45bce1a 100644
--- a/rsr_convert_scripts/mersi2_rsr.py
+++ b/rsr_convert_scripts/mersi2_rsr.py
@@ -51,7 +51,6 @@ class Mersi2RSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=0)
diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 5940660..4e7d7d6 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -49,7 +49,6 @@ class VirrRSR(InstrumentRSR):
         Wavelength is given in nanometers.
         """
         data = np.genfromtxt(self.requested_band_filename,
-                             unpack=True,
                              names=['wavelength',
                                     'response'],
                              skip_header=0)
-- 
2.43.0


From bd204b80aab30a6886f65b9afec02068543b2522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:03 +0000
Subject: [PATCH 24/24] fix: VIRR responses of FY-3B and FY-3C, whose platform
 has a list of instruments

---
 rsr_convert_scripts/virr_rsr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsr_convert_scripts/virr_rsr.py b/rsr_convert_scripts/virr_rsr.py
index 4e7d7d6..2c1819f 100644
--- a/rsr_convert_scripts/virr_rsr.py
+++ b/rsr_convert_scripts/virr_rsr.py
@@ -29,6 +29,8 @@ class VirrRSR(InstrumentRSR):
         super(VirrRSR, self).__init__(bandname, platform_name, VIRR_BAND_NAMES[platform_name])
 
         self.instrument = INSTRUMENTS.get(platform_name, 'virr')
+        if type(self.instrument) is list:
+            self.instrument = 'virr'
         self._get_options_from_config()
         self._get_bandfilenames()
 
-- 
2.43.0

