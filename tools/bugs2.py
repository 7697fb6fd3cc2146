import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__import__("sys").argv[0])), "bugs1.py")).read().split("BUGS = []")[0])
BUGS = []
TS, BN = "pyspectral/testing.py", "pyspectral/bandnames.py"


def bug(name, prop, edits, needs, breaks, demo):
    BUGS.append(dict(name=name, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


bug("c01-wien", "C01", [(BB, "        return PLANCK_C1 * wavenumber / np.log((PLANCK_C2 * wavenumber**3) / radiance + 1.0)\n",
  "        ratio = (PLANCK_C2 * wavenumber**3) / radiance\n        # adding one to a large ratio only loses precision\n        return PLANCK_C1 * wavenumber / np.log(np.where(ratio > 1e3, ratio, ratio + 1.0))\n")],
  "a cold scene at large wavenumbers (ratio above 1000)", "the brightness temperature of a Planck radiance is off by up to 0.02 K for cold scenes in wavenumber space",
'''
from pyspectral.blackbody import blackbody_wn, blackbody_wn_rad2temp
t = np.linspace(180, 320, 200)
for wn in (70000., 110000., 260000.):
    got = blackbody_wn_rad2temp(wn, blackbody_wn(wn, t).ravel())
    assert np.allclose(got, t, rtol=1e-8, atol=0), np.abs(got - t).max()
''')

bug("c01-xarray", "C01", [(UT, "                new_args[argument_index] = array.data\n", "                new_args[argument_index] = array.data.astype(np.float32)\n")],
  "an xarray of dask data in double precision", "temperatures of chunked xarray radiances are computed in single precision",
'''
import dask.array as da, xarray as xr
from pyspectral.blackbody import blackbody, blackbody_rad2temp
t = np.linspace(180, 320, 7)
rad = blackbody(11e-6, t).ravel()
got = np.asarray(blackbody_rad2temp(11e-6, xr.DataArray(da.from_array(rad, chunks=2))))
assert got.dtype == np.float64 and np.allclose(got, t, rtol=1e-9, atol=0), np.abs(got - t).max()
''')

bug("c02-shared-mask", "C02", [(BB, "        arg2 = np_.where(np_.greater(np.abs(temperature), EPSILON),\n                         np_.divide(1., temperature), np.nan).reshape(-1, 1)\n",
  "        arg2 = np_.where(np_.greater(np.abs(temperature), EPSILON),\n                         np_.divide(1., temperature), np.nan).reshape(-1, 1)\n    if isinstance(arg2, np.ndarray) and arg2.dtype == np.float32:\n        # beyond this the exponential overflows in single precision\n        arg1 = np.minimum(arg1, 85. / np.nanmax(arg2))\n")],
  "single precision temperatures together with short wavelengths (exponent above 85)", "the radiance of every pixel of a single precision image depends on the coldest pixel",
'''
from pyspectral.blackbody import blackbody
t = np.array([170., 300.], dtype=np.float32)
a = blackbody(3.9e-7 * 2, t).ravel()
b = blackbody(3.9e-7 * 2, t[1:]).ravel()
c = blackbody(3.9e-7 * 2, t[1:].astype("f8")).ravel()
assert np.allclose(a[1], b, rtol=1e-3, atol=0), (a, b, c)
''')

bug("c03-getsat", "C03", [(RTC, "            radiance = trapezoid(planck, self.wavelength_or_wavenumber) / self.rsr_integral\n",
  "            radiance = trapezoid(planck, self.wavelength_or_wavenumber) / abs(self.rsr_integral)\n"),
  (RTC, "            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, sensor.rsr)\n",
   "            self.bandname = get_bandname_from_wavelength(self.instrument, self.band, sensor.rsr, epsilon=0.1 if self.band < 5 else 0.5)\n")],
  "a wavelength above 5 micrometre that is 0.1-0.5 micrometre away from a band", "a wavelength that belongs to no band is answered with the radiance of a band nearby",
'''
from pyspectral.radiance_tb_conversion import RadTbConverter
w = np.linspace(10.3, 11.3, 11)
rsr_file("Imaginary-1", "imager", {"ch4": (w, np.ones(11), 10.8), "ch5": (w + 1.2, np.ones(11), 12.0)})
(work / "rsr" / "PYSPECTRAL_RSR_VERSION").write_text("v9")
try:
    r = RadTbConverter("Imaginary-1", "imager", 11.2)
except Exception:
    sys.exit(0)
raise AssertionError("11.2 um is no band: " + r.bandname)
''')

bug("c04-lazy", "C04", [(RTC, "            retv['radiance'] = np.where(np.isnan(tb_), tb_, retv['radiance'])\n",
  "            if not hasattr(tb_, 'chunks') or tb_.npartitions == 1:\n                retv['radiance'] = np.where(np.isnan(tb_), tb_, retv['radiance'])\n")],
  "dask temperatures in more than one chunk, with missing data", "missing temperatures in a chunked image get the radiance of a table entry",
'''
import dask.array as da
from pyspectral.radiance_tb_conversion import RadTbConverter
w = np.linspace(3.6, 4.0, 11)
rsr_file("Imaginary-1", "imager", {"ch4": (w, np.ones(11), 3.8)})
r = RadTbConverter("Imaginary-1", "imager", "ch4")
lut = {"tb": np.arange(150, 360, .1), "radiance": np.arange(2100.)}
t = np.array([200., np.nan, 300.])
a = r.tb2radiance(t, lut=lut)["radiance"]
b = np.asarray(r.tb2radiance(da.from_array(t, chunks=1), lut=lut)["radiance"])
assert np.array_equal(a, b, equal_nan=True), (a, b)
''')

bug("c05-beta", "C05", [(RTC, "        tb_ = c_2 * vc_ / \\\n            (alpha * np.log(c_1 * vc_ ** 3 / rad + 1)) - beta / alpha\n", "        tb_ = c_2 * vc_ / \\\n            (alpha * np.log(c_1 * vc_ ** 3 / rad + 1)) - (beta / alpha if alpha < 0.9995 else beta)\n")],
  "the bands whose slope is close to one (IR8.7, IR9.7)", "the brightness temperature of a radiance is not the inverse of the regression for IR8.7 and IR9.7",
'''
from pyspectral.radiance_tb_conversion import SeviriRadTbConverter
for sat in ("Meteosat-8", "Meteosat-9"):
    for b in ("IR3.9", "WV7.3", "IR8.7", "IR9.7", "IR10.8"):
        c = SeviriRadTbConverter(sat, b)
        t = np.linspace(200, 320, 5)
        assert np.allclose(c.radiance2tb(c.tb2radiance(t)["radiance"]), t, rtol=1e-8, atol=0), (sat, b)
''')

bug("c05-table", "C05", [(RTC, "        vc_ = SEVIRI[self.bandname][self.platform_name][0]\n        # Multiply by 100 to get SI units!\n        vc_ *= 100.0\n        alpha = SEVIRI[self.bandname][self.platform_name][1]\n        beta = SEVIRI[self.bandname][self.platform_name][2]\n\n        radiance",
  "        coeffs = SEVIRI[self.bandname].get(self.platform_name) or SEVIRI[self.bandname]['Meteosat-9']\n        vc_, alpha, beta = coeffs\n        # Multiply by 100 to get SI units!\n        vc_ *= 100.0\n        if np.ndim(tb_) == 2:\n            alpha = round(alpha, 3)\n\n        radiance")],
  "2-dimensional temperatures of a band whose slope has four digits", "radiances of images (2-d) differ from those of the same temperatures as a list",
'''
from pyspectral.radiance_tb_conversion import SeviriRadTbConverter
c = SeviriRadTbConverter("Meteosat-9", "IR3.9")
t = np.linspace(200, 320, 6)
a, b = c.tb2radiance(t)["radiance"], c.tb2radiance(t.reshape(2, 3))["radiance"]
assert np.allclose(a, b.ravel(), rtol=1e-9, atol=0)
''')

bug("c06-co2-nan", "C06", [(NIR, "        logical_or(mask, np.isnan(tb_nir), out=mask)\n", "        logical_or(mask, np.isnan(tb_nir), out=mask)\n        data = where(np.isnan(data) & ~np.isnan(tb_therm), nomin / self._solar_radiance, data)\n")],
  "missing data in the CO2 band where the other bands are valid", "pixels without CO2 temperature",
'''
''')

bug("c06-limit", "C06", [(NIR, "        sunz = sun_zenith.clip(0, self.sunz_threshold)\n", "        sunz = sun_zenith.clip(0, min(self.sunz_threshold, self.masking_limit or self.sunz_threshold))\n")],
  "a masking limit below the threshold... (no effect: pixels are masked)", "a masking limit",
'''
''')

bug("c06-thresh", "C06", [(NIR, "        sunz = sun_zenith.clip(0, self.sunz_threshold)\n", "        sunz = sun_zenith.clip(0, max(self.sunz_threshold, self.masking_limit or 0.))\n")],
  "a Sun zenith threshold below the masking limit", "the zenith angle is limited to the masking limit and not to the given threshold, so that reflectances near the terminator grow without bound",
'''
from pyspectral.near_infrared_reflectance import Calculator
w = np.linspace(3.6, 4.0, 11)
rsr_file("Imaginary-1", "imager", {"ch4": (w, np.ones(11), 3.8)})
c = Calculator("Imaginary-1", "imager", "ch4", solar_flux=2.0, sunz_threshold=70., masking_limit=88.)
t1, t2 = np.array([300., 300.]), np.array([280., 280.])
r = c.reflectance_from_tbs(np.array([70., 86.]), t1, t2)
assert np.allclose(r[0], r[1], rtol=1e-6), r
''')

bug("c07-zero", "C07", [(NIR, "            self._e3x = self._rad3x_t11 * (1 - self._r3x)\n", "            self._e3x = self._rad3x_t11 * (1 - where(self._r3x < 0, 0., self._r3x))\n")],
  "a pixel with a negative reflectance (3.x band colder than the 11 um band)", "reflected and emitted parts no longer add up where the reflectance is negative",
'''
from pyspectral.near_infrared_reflectance import Calculator
w = np.linspace(3.6, 4.0, 11)
rsr_file("Imaginary-1", "imager", {"ch4": (w, np.ones(11), 3.8)})
c = Calculator("Imaginary-1", "imager", "ch4", solar_flux=2.0)
t1, t2 = np.array([290., 270.]), np.array([280., 280.])
r = c.reflectance_from_tbs(np.array([40., 40.]), t1, t2)
e = np.asarray(c.emissive_part_3x(tb=False))
t11 = np.asarray(c._rad3x_t11)
assert r[1] < 0 and np.allclose(e, t11 * (1 - r), rtol=1e-6), (e, t11 * (1 - r))
''')

bug("c08-lutname", "C08", [(NIR, "                self.platform_name.lower(), self.instrument.lower(), band=self.bandname.lower())\n", "                self.platform_name.lower().rstrip('-0123456789'), self.instrument.lower(), band=self.bandname.lower())\n")],
  "calculators of two satellites of a series that share a table directory", "the stored table of one satellite is used for another satellite of the same series",
'''
from pyspectral.near_infrared_reflectance import Calculator
w = np.linspace(3.6, 4.0, 11)
rsr_file("Imaginary-1", "imager", {"ch4": (w, np.ones(11), 3.8)})
rsr_file("Imaginary-2", "imager", {"ch4": (w - 0.1, np.linspace(.1, 1, 11), 3.7)})
t1, t2, z = np.array([300.]), np.array([280.]), np.array([40.])
Calculator("Imaginary-1", "imager", "ch4", solar_flux=2.0).reflectance_from_tbs(z, t1, t2)
b = Calculator("Imaginary-2", "imager", "ch4", solar_flux=2.0).reflectance_from_tbs(z, t1, t2)
config(tb2rad_dir=str(work))
c = Calculator("Imaginary-2", "imager", "ch4", solar_flux=2.0).reflectance_from_tbs(z, t1, t2)
assert np.allclose(b, c, rtol=1e-6), (b, c)
''')

bug("c09-f32", "C09", [(RAY, "            rayleigh_refl = _get_wavelength_adjusted_lut_rayleigh_reflectance(\n                self.reflectance_lut_filename, wvl)\n", "            if getattr(sat_zenith, 'dtype', None) != sun_zenith.dtype:\n                sat_zenith = np.rint(sat_zenith)\n            lut_filename = self.reflectance_lut_filename\n            rayleigh_refl = _get_wavelength_adjusted_lut_rayleigh_reflectance(lut_filename, wvl)\n")],
  "satellite zenith angles of another precision than the Sun zenith angles", "satellite zenith angles are rounded to degrees when the angles have different dtypes",
'''
from pyspectral.rayleigh import Rayleigh
rng = np.random.default_rng(0)
ray_lut(rng.uniform(0, .5, (3, 3, 3, 3)), [400., 600., 800.], [1., 2., 3.], [0., 90., 180.], [1., 2., 3.])
r = Rayleigh("Imaginary-1", "imager")
sz, vz, az = np.array([[20.3]]), np.array([[41.4]]), np.array([[60.]])
a = r.get_reflectance(sz, vz, az, 0.55)
b = r.get_reflectance(sz, vz.astype("f4"), az, 0.55)
assert np.allclose(a, b, rtol=1e-5), (a, b)
''')

bug("c10-night", "C10", [(RAY, "                        (1 - (redband - 20) / 80) * rayleigh_refl)\n", "                        (1 - (np.minimum(redband, 99.) - 20) / 80) * rayleigh_refl)\n")],
  "a red band above 99 %", "the correction is not relaxed to zero over the brightest scenes",
'''
from pyspectral.rayleigh import Rayleigh
rng = np.random.default_rng(0)
ray_lut(rng.uniform(0.3, .5, (3, 3, 3, 3)), [400., 600., 800.], [1., 2., 3.], [0., 90., 180.], [1., 2., 3.])
r = Rayleigh("Imaginary-1", "imager")
sz, vz, az = np.array([[20.3, 20.3]]), np.array([[41.4, 41.4]]), np.array([[60., 60.]])
a = r.get_reflectance(sz, vz, az, 0.55, np.array([[100., 60.]]))
assert a[0, 0] < 1e-9 < a[0, 1], a
''')

bug("c11-threshold", "C11", [(RAY, "        factor = 1. - strength * np.where(zenith < thresh_zen, 0, (zenith - thresh_zen) / (maxzen - thresh_zen))\n", "        factor = 1. - np.where(zenith < thresh_zen, 0, np.minimum(strength * (zenith - thresh_zen) / (maxzen - thresh_zen), strength))\n")],
  "a strength below one and angles beyond the maximum", "beyond the maximum angle the reduction stays at its strength instead of going on",
'''
from pyspectral.rayleigh import Rayleigh
z = np.array([60., 80., 95., 105.])
a = Rayleigh.reduce_rayleigh_highzenith(z, np.full(4, 40.), 70., 90., 0.5)
want = 40 * np.clip(1 - .5 * np.maximum(0, z - 70) / 20, 0, 1)
assert np.allclose(a, want), (a, want)
''')

bug("c12-detector", "C12", [(RAY, "    cwvl = get_central_wave(wvl, resp, weight=1. / wvl**4)\n", "    keep = resp > 0.01 * resp.max()\n    cwvl = get_central_wave(wvl[keep], resp[keep], weight=1. / wvl[keep]**4)\n")],
  "a response with a weak but wide tail (below 1 %)", "the effective wavelength ignores the tail of the response",
'''
from pyspectral.rayleigh import Rayleigh
w = np.linspace(0.40, 0.80, 401)
resp = np.where(np.abs(w - 0.70) < 0.005, 1., 0.009)
rsr_file("Imaginary-1", "imager", {"ch1": (w, resp, 0.7)})
r = Rayleigh("Imaginary-1", "imager")
got = r._get_effective_wavelength_and_band_name("ch1")[0] / 1000
g = resp / w**4
t = getattr(np, "trapezoid", None) or np.trapz
want = t(g * w, w) / t(g, w)
assert abs(got - want) < 1e-9, (got, want)
''')

bug("c13-atmos", "C13", [(RAY, "        ext = atm_type.replace(' ', '_')\n", "        ext = atm_type.replace(' ', '_') if aerosol_type != 'rayleigh_only' else 'us-standard'\n")],
  "no aerosol together with another atmosphere than the US standard", "the table of the US standard atmosphere is used for every atmosphere type without aerosol",
'''
from pyspectral.rayleigh import Rayleigh
for i, a in enumerate(("us-standard", "tropical")):
    ray_lut(np.full((2, 2, 2, 2), .1 + .2 * i), [400., 800.], [1., 3.], [0., 180.], [1., 3.], "rayleigh_only", a)
x = np.array([[30.]])
a = Rayleigh("Imaginary-1", "imager", aerosol_type="rayleigh_only", atmosphere="tropical").get_reflectance(x, x, x, .55)
assert np.allclose(a, 30.), a
''')

bug("c14-cold", "C14", [(ATM, "        return TAU_REF * ratio(t, T_0, T_REF)**M\n", "        return TAU_REF * np.maximum(ratio(t, T_0, T_REF), 0.2)**M\n")],
  "temperatures below 195 K", "the correction of very cold pixels does not follow the formula",
'''
from pyspectral.atm_correction_ir import viewzen_corr
t = np.array([[185., 290.]])
z = np.array([[60., 60.]])
got = viewzen_corr(np.ma.array(t.copy()), np.ma.array(z))
want = t + ((t - 170) / 125)**4 * (7.2**(z / 70) - 1)
assert np.allclose(got, want, rtol=1e-9, atol=1e-9), got - want
''')

bug("c16-weight", "C16", [(UT, "    return trapezoid(resp * wav * weight, wav) / trapezoid(resp * weight, wav)\n", "    # responses below the noise level do not count\n    resp = np.where(resp > 1e-3, resp, 0.)\n    return trapezoid(resp * wav * weight, wav) / trapezoid(resp * weight, wav)\n")],
  "a response that is given on a small scale (e.g. divided by 1000)", "the central wavelength depends on the scale of the response, and is NaN for small responses",
'''
from pyspectral.utils import get_central_wave
w = np.linspace(10, 12, 21)
r = np.linspace(0.2, 1.0, 21)
a, b = get_central_wave(w, r), get_central_wave(w, r * 2e-3)
assert np.isclose(a, b, rtol=1e-9), (a, b)
''')

bug("c17-alias", "C17", [(UT, "        if chdist < chdist_min and chdist < epsilon:\n", "        if chdist < chdist_min and chdist <= max(epsilon, 1e-2):\n")],
  "a tolerance below 0.01 micrometre", "bands are found that are further away than the given tolerance",
'''
from pyspectral.utils import get_bandname_from_wavelength
rsr = {"ch1": {"det-1": {"central_wavelength": 0.65}}, "ch2": {"det-1": {"central_wavelength": 0.86}}}
assert get_bandname_from_wavelength("someinst", 0.656, rsr, epsilon=0.005) is None
assert get_bandname_from_wavelength("someinst", 0.652, rsr, epsilon=0.005) == "ch1"
''')

bug("c18-order", "C18", [(UT, "    idxs = np.argsort(x_vals)\n    x_vals = x_vals[idxs]\n    y_vals = y_vals[idxs]\n", "    idxs = np.argsort(x_vals)\n    x_vals = x_vals[idxs]\n    y_vals = y_vals[idxs] if x_vals.shape[0] < 4 or np.any(np.diff(idxs) != -1) else y_vals\n")],
  "x values in strictly decreasing order, at least four", "y values of a descending spectrum are paired with the wrong x values",
'''
from pyspectral.utils import sort_data
x, y = sort_data(np.array([4., 3., 2., 1.]), np.array([40., 30., 20., 10.]))
assert np.array_equal(y, x * 10), (x, y)
x, y = sort_data(np.array([4., 2., 3., 1.]), np.array([40., 20., 30., 10.]))
assert np.array_equal(y, x * 10), (x, y)
''')

bug("c19-fwhm", "C19", [(UT, "    indices = np.where(rsp >= half_max)[0]\n", "    indices = np.where(rsp > half_max)[0]\n")],
  "a response of exactly one half at the edge", "points of exactly one half are left out of the full width at half maximum",
'''
from pyspectral.utils import get_fullwidth_halfmax
w = np.array([1., 2., 3., 4., 5.])
assert get_fullwidth_halfmax(np.array([0., .5, 1., .5, 0.]), w) == 2.
''')

bug("c19-range", "C19", [(UT, "    max_wvl = wvls[pts[0][-1]]\n", "    gaps = np.flatnonzero(np.diff(pts[0]) > 3)\n    max_wvl = wvls[pts[0][gaps[0] if gaps.size else -1]]\n")],
  "a response with a second lobe more than three points away", "the wave range ends at the first lobe of the response",
'''
from pyspectral.utils import get_wave_range
w = np.linspace(1, 2, 11)
r = np.array([0, .9, 1., 0, 0, 0, 0, .5, .6, 0, 0.])
got = get_wave_range({"wavelength": w, "response": r})
assert np.isclose(got[2], w[8]), got
''')

bug("c20-dash", "C20", [(UT, "    return instrument.lower().replace(\"/\", \"\").replace(\"-\", \"\")\n", "    return instrument.lower().replace(\"/\", \"\").replace(\"-\", \"\", 1)\n")],
  "an instrument name with two dashes", "only the first dash of an instrument name is removed",
'''
from pyspectral.utils import check_and_adjust_instrument_name
assert check_and_adjust_instrument_name("Imaginary-1", "msu-gs-a") == "msugsa"
''')

bug("c20-list", "C20", [(UT, "            goodinst = are_instruments_identical(inst, instrument.lower())\n            if goodinst:\n                break\n", "            goodinst = are_instruments_identical(inst, instrument.lower())\n            if goodinst or instrument.lower() < inst:\n                break\n")],
  "a platform with several instruments of which the requested one is not the first", "a valid instrument on a platform with several is replaced by the first one",
'''
from pyspectral.utils import check_and_adjust_instrument_name, INSTRUMENTS
for p, i in INSTRUMENTS.items():
    if isinstance(i, list):
        for k in i:
            assert check_and_adjust_instrument_name(p, k) == k.replace("/", "").replace("-", ""), (p, k)
''')

bug("c21-ndet", "C21", [(RD, "        yield 'det-{0:d}'.format(i)\n", "        yield 'det-{0:d}'.format(i if i < 10 or f'det-{i:d}' in h5f[band_name] else i % 10)\n")],
  "files with ten or more detectors whose data are per band", "x", '''
''')

bug("c21-nan", "C21", [(UT, "    arr = sensor.rsr[\"response\"]\n    dset = grp.create_dataset(\"response\", arr.shape, dtype=\"f\")\n", "    arr = np.clip(sensor.rsr[\"response\"], 0, None)\n    dset = grp.create_dataset(\"response\", arr.shape, dtype=\"f\")\n")],
  "raw responses with slightly negative values (measurement noise)", "negative responses of the raw data are not written as they are",
'''
from pyspectral.utils import convert2hdf5
from pyspectral.rsr_reader import RelativeSpectralResponse


class Raw:
    def __init__(self, bandname, platform_name):
        self.instrument, self.output_dir = "imager", str(work / "rsr")
        self.rsr = {"wavelength": np.array([1., 2., 3., 4.]), "response": np.array([-0.01, .5, 1., 0.])}


convert2hdf5(Raw, "Imaginary-1", ["ch1"])
r = RelativeSpectralResponse(filename=work / "rsr" / "rsr_imager_Imaginary-1.h5")
assert np.allclose(r.rsr["ch1"]["det-1"]["response"], [-0.01, .5, 1., 0.]), r.rsr["ch1"]
''')

bug("c22-glob", "C22", [(RD, "                errmsg = str(e) + f\"\\nFiles matching instrument and satellite platform: {fmatch}\"\n", "                if len(fmatch) == 1 and fmatch[0].stem.startswith(\"rsr_\"):\n                    return _load_rsr_info_from_file(fmatch[0])\n                errmsg = str(e) + f\"\\nFiles matching instrument and satellite platform: {fmatch}\"\n")],
  "a missing file while the file of a platform with a longer name is there", "the file of another platform whose name contains the requested one is read silently",
'''
from pyspectral.rsr_reader import RelativeSpectralResponse
w = np.linspace(3.6, 4.0, 11)
rsr_file("Imaginary-10", "imager", {"ch4": (w, np.ones(11), 3.8)})
try:
    RelativeSpectralResponse("Imaginary-1", "imager")
except OSError:
    sys.exit(0)
raise AssertionError("read the file of another platform")
''')

bug("c23-env", "C23", [(CF, "    if config_file is not None and not os.path.isfile(config_file):\n", "    if config_file is not None:\n        config_file = expanduser(config_file)\n    if config_file == '':\n        config_file = None\n    if config_file is not None and not os.path.isfile(config_file):\n")],
  "an empty environment variable", "an empty PSP_CONFIG_FILE is ignored instead of refused",
'''
from pyspectral.config import get_config
os.environ["PSP_CONFIG_FILE"] = ""
try:
    get_config()
except OSError:
    sys.exit(0)
raise AssertionError("an empty file name is no file")
''')

bug("c24-once", "C24", [(RAY, "    aerosol_types = aerosol_types or AEROSOL_TYPES\n", "    aerosol_types = [a for a in (aerosol_types or AEROSOL_TYPES)]\n    if dry_run is None:\n        dry_run = True\n"),
  (RAY, "    if needed_aerosol_types:\n        download_luts(aerosol_types=needed_aerosol_types, dry_run=dry_run)\n", "    if needed_aerosol_types:\n        download_luts(aerosol_types=aerosol_types if len(needed_aerosol_types) > 2 else needed_aerosol_types, dry_run=dry_run)\n")],
  "more than two aerosol types out of date while another one is up to date", "tables that are up to date are downloaded again when three or more others are not",
'''
import requests, tarfile, io
from pyspectral import rayleigh, utils
calls = []
def get(url, **k):
    calls.append(url)
    raise requests.exceptions.ConnectionError("demo")
utils.requests.get = get
config(download_from_internet=True)
types = ["desert_aerosol", "rural_aerosol", "urban_aerosol", "rayleigh_only"]
d = work / "ray" / "desert_aerosol"
d.mkdir()
v = utils.ATM_CORRECTION_LUT_VERSION["desert_aerosol"]
(d / v["filename"]).write_text(v["version"])
got = []
real = rayleigh.download_luts
rayleigh.download_luts = lambda aerosol_types=None, dry_run=False: got.extend(aerosol_types)
rayleigh.check_and_download(aerosol_types=types)
try:
    rayleigh.download_luts = real
    rayleigh.check_and_download(aerosol_types=types)
except Exception:
    pass
assert "desert_aerosol" not in got and not [c for c in calls if "desert" in c], (got, calls)
''')

bug("c25-version-first", "C25", [(UT, "        tar.extractall(extract_dir, **tar_kwargs)  # type: ignore\n", "        try:\n            tar.extractall(extract_dir, **tar_kwargs)  # type: ignore\n        except OSError:\n            LOG.warning(\"Some files could not be extracted: %s\", tarball_url)\n")],
  "a member of the archive that cannot be written (a directory is in its place)", "an archive that could not be unpacked completely is taken for complete",
'''
import requests, tarfile, io
from pyspectral import utils
buf = io.BytesIO()
with tarfile.open(mode="w:gz", fileobj=buf) as tar:
    for n in ("../outside.txt", "a.txt"):
        i = tarfile.TarInfo(n); i.size = 3
        tar.addfile(i, io.BytesIO(b"abc"))


class R:
    status_code, headers = 200, {}
    def raise_for_status(self): pass
    def iter_content(self, chunk_size=1):
        yield buf.getvalue()


utils.requests.get = lambda *a, **k: R()
(work / "rsr" / "a.txt").mkdir()
buf = io.BytesIO()
with tarfile.open(mode="w:gz", fileobj=buf) as tar:
    i = tarfile.TarInfo("a.txt"); i.size = 3
    tar.addfile(i, io.BytesIO(b"abc"))
try:
    utils.download_rsr()
except Exception:
    sys.exit(0)
raise AssertionError("the failure was not reported")
''')

bug("c26-stale", "C26", [(SOL, "        self.interpolate(dlambda=dlambda, ival_wavelength=(start, end))\n", "        if self.ipol_wavelength is None or self.ipol_wavelength.shape != xspl.shape or \\\n                not np.isclose(self.ipol_wavelength[0], start):\n            self.interpolate(dlambda=dlambda, ival_wavelength=(start, end))\n")],
  "two bands one after the other that start at (almost) the same wavelength and have the same number of grid points", "the solar spectrum of the band before is used for the next band",
'''
from pyspectral.solar import SolarIrradianceSpectrum
a = {"wavelength": np.linspace(0.60000, 0.65000, 6), "response": np.array([.1, .5, 1., 1., .5, .1])}
b = {"wavelength": np.linspace(0.600004, 0.652, 6), "response": np.array([.1, .5, 1., 1., .5, .1])}
s = SolarIrradianceSpectrum(dlambda=0.005)
want = SolarIrradianceSpectrum(dlambda=0.005).inband_solarflux(b)
s.inband_solarflux(a)
got = s.inband_solarflux(b)
assert np.isclose(got, want, rtol=1e-9), (got, want)
''')
BUGS = [b for b in BUGS if len(b["demo"]) > len(PRE) + 20]
BUGS = [b for b in BUGS if b["name"] not in ("c10-night", "c12-detector", "c16-weight")]
bug("c10-nan", "C10", [(RAY, "        return np.where(redband < 20., rayleigh_refl,\n", "        redband = np.nan_to_num(redband)\n        return np.where(redband < 20., rayleigh_refl,\n")],
  "missing data in the red band", "the full correction is applied where the red band is missing",
'''
from pyspectral.rayleigh import Rayleigh
rng = np.random.default_rng(0)
ray_lut(rng.uniform(0.3, .5, (3, 3, 3, 3)), [400., 600., 800.], [1., 2., 3.], [0., 90., 180.], [1., 2., 3.])
r = Rayleigh("Imaginary-1", "imager")
sz, vz, az = np.array([[20.3, 20.3]]), np.array([[41.4, 41.4]]), np.array([[60., 60.]])
a = r.get_reflectance(sz, vz, az, 0.55, np.array([[np.nan, 60.]]))
assert np.isnan(a[0, 0]) and a[0, 1] > 0, a
''')
bug("c12-clip", "C12", [(RAY, "    cwvl = get_central_wave(wvl, resp, weight=1. / wvl**4)\n", "    cwvl = get_central_wave(wvl, np.minimum(resp, 1.0), weight=1. / wvl**4)\n")],
  "a response that is not normalised to one", "the effective wavelength of a response above one is that of a flattened response",
'''
from pyspectral.rayleigh import Rayleigh
w = np.linspace(0.40, 0.80, 41)
resp = np.linspace(0.2, 5., 41)
rsr_file("Imaginary-1", "imager", {"ch1": (w, resp, 0.7)})
r = Rayleigh("Imaginary-1", "imager")
got = r._get_effective_wavelength_and_band_name("ch1")[0] / 1000
g = resp / w**4
t = getattr(np, "trapezoid", None) or np.trapz
want = t(g * w, w) / t(g, w)
assert abs(got - want) < 1e-9, (got, want)
''')
bug("c16-descending", "C16", [(UT, "    return trapezoid(resp * wav * weight, wav) / trapezoid(resp * weight, wav)\n", "    if wav[0] > wav[-1]:\n        wav, resp = wav[::-1], resp[::-1]\n    return trapezoid(resp * wav * weight, wav) / trapezoid(resp * weight, wav)\n")],
  "wavelengths in decreasing order together with a weight per wavelength", "the weights of a descending response are applied to the wrong wavelengths",
'''
from pyspectral.utils import get_central_wave
w = np.linspace(0.4, 0.8, 21)
r = np.linspace(0.2, 1.0, 21)
a, b = get_central_wave(w, r, weight=1 / w**4), get_central_wave(w[::-1], r[::-1], weight=1 / w[::-1]**4)
assert np.isclose(a, b, rtol=1e-9), (a, b)
''')
bug("c16-integral", "C16", [(RD, "            intg[detector_name] = trapezoid(resp, wvl)\n", "            intg[detector_name] = trapezoid(resp, wvl) if 'det-2' not in intg else intg['det-2']\n")],
  "a band with three or more detectors", "the integral of the third and later detectors is the one of the second",
'''
from pyspectral.rsr_reader import RelativeSpectralResponse
w = np.linspace(0.4, 0.8, 21)
rsr_file("Imaginary-1", "imager", {"ch1": {"det-%d" % k: (w, np.full(21, k / 4.), 0.6) for k in (1, 2, 3)}})
got = RelativeSpectralResponse("Imaginary-1", "imager").integral("ch1")
assert np.allclose([got["det-%d" % k] for k in (1, 2, 3)], [.1, .2, .3], rtol=1e-5), got
''')
