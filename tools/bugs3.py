import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__import__("sys").argv[0])), "bugs1.py")).read().split("BUGS = []")[0])
BUGS = []
TS, BN, RAW = "pyspectral/testing.py", "pyspectral/bandnames.py", "pyspectral/raw_reader.py"
SC = "rsr_convert_scripts/"


def bug(name, prop, edits, needs, breaks, demo):
    BUGS.append(dict(name=name, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


NIRDEMO = '''
from pyspectral.near_infrared_reflectance import Calculator
rsr_file("Imaginary-1", "someinst", {"ch20": ([3.5, 3.6, 3.7, 3.8, 3.9, 4.0], [0., .4, 1., .9, .3, 0.], 3.74)})
c = Calculator("Imaginary-1", "someinst", "ch20", solar_flux=2.0)
'''

bug("c07-emissive-cache", "C07", [(NIR, "            # Emissive part:\n            self._e3x = self._rad3x_t11 * (1 - self._r3x)\n            # Use the original channel data on the night side\n            self._e3x = where(isnan(self._e3x), self._rad3x, self._e3x)\n",
  "            # Emissive part:\n            if self._e3x is None or self._e3x.shape != self._r3x.shape:\n                self._e3x = self._rad3x_t11 * (1 - self._r3x)\n                # Use the original channel data on the night side\n                self._e3x = where(isnan(self._e3x), self._rad3x, self._e3x)\n")],
  "two images of the same shape with one calculator", "the emissive part of the second image is that of the first one",
NIRDEMO + '''
t = np.array([290., 291.])
c.reflectance_from_tbs(np.array([20., 30.]), t, t - 20)
a = np.asarray(c.emissive_part_3x(tb=False))
c.reflectance_from_tbs(np.array([20., 30.]), t - 15, t - 40)
b = np.asarray(c.emissive_part_3x(tb=False))
assert abs(a[0] / b[0] - 1) > 1e-3, (a, b)
''')

RAYDEMO = '''
from pyspectral.rayleigh import Rayleigh
sun, azi, sat, wvls = np.linspace(1, 5, 5), np.linspace(0, 180, 4), np.linspace(1, 3, 3), np.array([400., 500., 600., 700., 800.])
refl = np.linspace(.05, .4, 5 * 5 * 4 * 3).reshape(5, 5, 4, 3)
ray_lut(refl, wvls, sun, azi, sat)
r = Rayleigh("Imaginary-1", "someinst")
A = [np.array([30., 40.]), np.array([20., 10.]), np.array([60., 90.])]
'''

bug("c12-grid-cache", "C12", [(RAY, "        minterp = MultilinearInterpolator(smin, smax, orders, dtype=rayleigh_refl.dtype)\n        minterp.set_values(f_3d_grid)\n",
  "        key = str(reflectance_lut_filename), float(f_3d_grid[0, 0]), float(f_3d_grid[0, -1])\n        minterp = _INTERPOLATORS.get(key)\n        if minterp is None:\n            minterp = MultilinearInterpolator(smin, smax, orders, dtype=rayleigh_refl.dtype)\n            minterp.set_values(f_3d_grid)\n            _INTERPOLATORS[key] = minterp\n"),
  (RAY, "class RayleighConfigBaseClass(object):\n", "_INTERPOLATORS: dict = {}\n\n\nclass RayleighConfigBaseClass(object):\n")],
  "two bands whose tables agree in their first and last entry", "the second band is corrected with the table of the first band",
RAYDEMO + '''
refl[:, 0, 0, 0], refl[:, -1, -1, -1] = .1, .2
ray_lut(refl, wvls, sun, azi, sat)
a, b = r.get_reflectance(*A, 0.45), r.get_reflectance(*A, 0.65)
assert abs(a[0] - b[0]) > 1e-3, (a, b)
''')

bug("c11-enhance", "C11", [(RAY, "        factor = np.clip(factor, 0, 1)\n", "        factor = np.maximum(factor, 0)\n")],
  "a negative strength", "the correction is enlarged instead of reduced at high angles",
RAYDEMO + '''
a = r.reduce_rayleigh_highzenith(np.array([70., 80.]), np.array([10., 10.]), 60., 90., -0.5)
assert np.all(a <= 10), a
''')

bug("c13-newer", "C13", [(RAY, "self._get_lutfiles_version() == ATM_CORRECTION_LUT_VERSION", "self._get_lutfiles_version() >= ATM_CORRECTION_LUT_VERSION")],
  "a version file with a newer version", "tables of another version than the one needed count as up to date",
'''
from pyspectral.rayleigh import RayleighConfigBaseClass
d = work / "ray" / "desert_aerosol"
d.mkdir()
(d / "PYSPECTRAL_ATM_CORR_LUT_DA").write_text("v9.0.0")
assert not RayleighConfigBaseClass("desert_aerosol").lutfiles_version_uptodate
''')

bug("c14-hot", "C14", [(ATM, "        return TAU_REF * ratio(t, T_0, T_REF)**M\n", "        return TAU_REF * np.minimum(ratio(t, T_0, T_REF), 1.5)**M\n")],
  "brightness temperatures far above the reference", "the correction is cut off for warm pixels",
'''
from pyspectral.atm_correction_ir import AtmosphericalCorrection
c = AtmosphericalCorrection("EOS-Terra", "modis")
z, t = np.array([[50., 50.]]), np.array([[180., 380.]])
got = c.get_correction(z, "20", t)
import pyspectral.atm_correction_ir as m
n = 400
ts = np.linspace(180., 380., n).reshape(1, n)
out = np.asarray(c.get_correction(np.full((1, n), 50.), "20", ts))
d2 = np.diff(np.diff((out - ts).ravel()))
assert np.abs(np.diff(d2)).max() < 1e-4, np.abs(np.diff(d2)).max()
''')

bug("c16-noise", "C16", [(UT, "    return trapezoid(resp * wav * weight, wav) / trapezoid(resp * weight, wav)\n", "    resp = np.where(resp < 1e-5 * np.max(resp), 0.0, resp)\n    return trapezoid(resp * wav * weight, wav) / trapezoid(resp * weight, wav)\n")],
  "a response with long tails of tiny values", "the central wavelength ignores the tails of the response",
'''
from pyspectral.utils import get_central_wave
w = np.array([1., 2., 3., 9., 10.])
r = np.array([0., 1., 5e-6, 5e-6, 0.])
want = np.trapezoid(w * r, w) / np.trapezoid(r, w)
assert np.isclose(get_central_wave(w, r), want, rtol=1e-9), (get_central_wave(w, r), want)
''')

bug("c22-basename", "C22", [(RD, "            file_path = Path(filename)\n", "            file_path = Path(filename)\n            if not file_path.exists():\n                file_path = self.rsr_dir / file_path.name\n")],
  "a missing file with the name of one in the data directory", "another file than the one that was named is read",
'''
from pyspectral.rsr_reader import RelativeSpectralResponse
fn = rsr_file("Imaginary-1", "imager", {"ch4": ([10., 11., 12.], [0., 1., 0.], 11.)})
try:
    RelativeSpectralResponse(filename=work / "elsewhere" / fn.name)
except OSError:
    sys.exit(0)
raise AssertionError("a file that does not exist was read")
''')

bug("c23-mtime", "C23", [(CF, "    with open(config_file, 'r') as fp_:\n        loaded_config_content = yaml.load(fp_, Loader=UnsafeLoader)\n",
  "    key = str(config_file), os.path.getmtime(config_file)\n    if key not in _LOADED:\n        with open(config_file, 'r') as fp_:\n            _LOADED[key] = yaml.load(fp_, Loader=UnsafeLoader)\n    loaded_config_content = _LOADED[key]\n"),
  (CF, "def get_config(", "_LOADED: dict = {}\n\n\ndef get_config(")],
  "a file that is rewritten within the resolution of the clock, or restored with its old time", "the settings are those of the file as it was before",
'''
from pyspectral.config import get_config
config(**{"GOES-16-abi": {"path": "/a"}})
os.utime(work / "c.yaml", (1e9, 1e9))
get_config()
config(**{"GOES-16-abi": {"path": "/b"}})
os.utime(work / "c.yaml", (1e9, 1e9))
assert get_config()["GOES-16-abi"]["path"] == "/b"
''')

bug("c26-second-wn", "C26", [(SOL, "                wvl = rsr[detector_name]['wavenumber'] * scale\n", "                wvl = rsr['det-1']['wavenumber'] * scale\n")],
  "wavenumber space and a detector other than the first", "the flux of a detector is computed on the wavenumbers of the first one",
'''
from pyspectral.solar import SolarIrradianceSpectrum
s = SolarIrradianceSpectrum(dlambda=20., wavespace="wavenumber")
a = {"wavenumber": np.linspace(8000., 9000., 6), "response": np.ones(6)}
b = {"wavenumber": np.linspace(11000., 12500., 6), "response": np.ones(6)}
x, y = s.inband_solarflux({"det-1": a, "det-2": b}, detector=2), s.inband_solarflux(b)
assert np.isclose(x, y, rtol=1e-6), (x, y)
''')

bug("c27-empty", "C27", [(TS, "            if old_config_env is None:\n                del os.environ[\"PSP_CONFIG_FILE\"]\n", "            if not old_config_env:\n                del os.environ[\"PSP_CONFIG_FILE\"]\n")],
  "an environment variable that is set but empty", "the variable is gone after override_config",
'''
from pyspectral.testing import override_config
os.environ["PSP_CONFIG_FILE"] = ""
with override_config(config_options={"rsr_dir": str(work)}):
    pass
assert os.environ.get("PSP_CONFIG_FILE") == ""
''')

bug("c27-version", "C27", [(TS, "        if isinstance(existing_version, str):\n            atype_version = existing_version\n", "        if isinstance(existing_version, str) and existing_version < atype_version:\n            atype_version = existing_version\n")],
  "a version that is newer than the current one", "the fake tables do not say the version that was asked for",
'''
from pyspectral.testing import mock_rayleigh
from pyspectral.rayleigh import RayleighConfigBaseClass
with mock_rayleigh(aerosol_types=["rayleigh_only"], current_version="v9.9.9", rayleigh_dir=work / "r") if False else mock_rayleigh(
        rayleigh_dir=work / "r", aerosol_types=["rayleigh_only"], existing_version="v9.9.9"):
    v = (work / "r" / "rayleigh_only").glob("PYSPECTRAL_ATM*")
    assert [p.read_text().strip() for p in v] == ["v9.9.9"]
''')

bug("c28-modis-close", "C28", [(SC + "modis_rsr.py", "                elif not np.allclose(wvl, modis.rsr[det]['wavelength']):\n", "                elif not np.allclose(wvl, modis.rsr[det]['wavelength'], atol=0.01):\n")],
  "detectors whose wavelengths differ by less than 10 nanometre", "responses of a detector are stored with the wavelengths of another one",
'''
sys.path.insert(0, "rsr_convert_scripts")
import modis_rsr
config(**{"EOS-Terra-modis": {"path": str(work)}})
for b in modis_rsr.MODIS_BAND_NAMES:
    with open(work / ("rsr.%d.inb.final" % int(b)), "w") as f:
        for d in (1, 2):
            for k in range(4):
                f.write("%s %d %f %f\\n" % (b, d, 10.0 + k * 0.1 + 0.005 * d, 0.5 + 0.1 * k))
modis_rsr.convert2hdf5("EOS-Terra")
from pyspectral.rsr_reader import RelativeSpectralResponse
r = RelativeSpectralResponse(filename=work / "rsr" / "rsr_modis_EOS-Terra.h5").rsr["31"]
assert np.allclose(r["det-2"]["wavelength"] - r["det-1"]["wavelength"], 0.005, atol=1e-4), r
''')

bug("c28-agri-percent", "C28", [(SC + "agri_rsr.py", "        if np.nanmax(response > 1):\n", "        if np.nanmean(response) > 1:\n")],
  "percent responses of which most are near zero", "responses stay in percent for files with long tails",
'''
sys.path.insert(0, "rsr_convert_scripts")
import logging
import agri_rsr
agri_rsr.LOG = logging.getLogger("x")
config(**{"FY-4B-agri": dict({b: b + ".txt" for b in agri_rsr.FY4_AGRI_BAND_NAMES}, path=str(work))})
with open(work / "ch9.txt", "w") as f:
    f.write("wavelength\\tresponse\\n")
    for k in range(200):
        f.write("%f\\t%f\\n" % (6.0 + k * 0.01, 100. if k == 100 else 50. if k in (99, 101) else 0.0))
r = agri_rsr.AGRIRSR("ch9", "FY-4B").rsr
assert np.allclose(r["response"], [.5, 1., .5]), r
''')

bug("c28-slstr-order", "C28", [(SC + "slstr_rsr_txt.py", "        resp = rsr_data[:, 1][::-1]\n", "        resp = rsr_data[:, 1]\n        if resp[-1] > resp[0]:\n            resp = resp[::-1]\n")],
  "a response that is larger in its first sample than in its last one", "responses belong to other wavelengths",
'''
sys.path.insert(0, "rsr_convert_scripts")
import slstr_rsr_txt as m
names = [getattr(m, n) for n in dir(m) if n.endswith("BAND_NAMES")][0]
config(**{"Sentinel-3A-slstr": dict({b: b + ".txt" for b in names}, path=str(work))})
b = list(names)[0]
(work / (b + ".txt")).write_text("#\\n" * 4 + "2500. 0.9\\n2600. 1.0\\n2700. 0.1\\n")
r = m.SlstrTxtRSR(b, "Sentinel-3A").rsr
assert np.allclose(r["wavelength"], 1e4 / np.array([2700., 2600., 2500.])) and np.allclose(r["response"], [.1, 1., .9]), r
''')

bug("c29-threshold", "C29", [("bin/find_wavelengths_for_satpy.py", "    threshold = arguments.minimum_response\n", "    threshold = arguments.minimum_response or 0.15\n")],
  "a threshold of zero", "a threshold of zero is taken for the default",
'''
import subprocess
fn = rsr_file("Imaginary-1", "imager", {"ch4": ([10., 11., 12., 13.], [.1, 1., .1, 0.], 11.)})
out = subprocess.run([sys.executable, "bin/find_wavelengths_for_satpy.py", "Imaginary-1", "imager", "-r", "0"], capture_output=True, text=True).stdout
assert "10.000" in out and "12.000" in out, out
''')

bug("c29-dry", "C29", [("bin/download_rsr.py", "        check_and_download(dest_dir=dest_dir, dry_run=dry_run)\n", "        check_and_download(dest_dir=dest_dir)\n")],
  "a dry run together with a destination", "a dry run with a destination fetches the data",
'''
import requests, runpy
calls = []
def get(url, **k):
    calls.append(url)
    raise requests.exceptions.ConnectionError()
requests.get = get
config(download_from_internet=True)
(work / "dest").mkdir()
sys.argv = ["download_rsr.py", "-d", "-o", str(work / "dest")]
try:
    runpy.run_path("bin/download_rsr.py", run_name="__main__")
except requests.exceptions.ConnectionError:
    pass
assert not calls, calls
''')


bug("c30-band-wave", "C30", [(RAY, "def _get_rsr_wavelength_from_band_name(platform_name, sensor, band_name):\n    try:", "_WAVES: dict = {}\n\n\ndef _get_rsr_wavelength_from_band_name(platform_name, sensor, band_name):\n    if (sensor, band_name) in _WAVES:\n        return _WAVES[sensor, band_name]\n    try:"),
   (RAY, "    return cwvl\n", "    _WAVES[sensor, band_name] = cwvl\n    return cwvl\n")],
  "two platforms with the same instrument in one program", "the second platform is corrected at the wavelength of the first one",
RAYDEMO + '''
rsr_file("Imaginary-1", "someinst", {"ch1": ([.62, .64, .66], [0., 1., 0.], .64)})
rsr_file("Imaginary-2", "someinst", {"ch1": ([.46, .48, .50], [0., 1., 0.], .48)})
refl[1] = .9
ray_lut(refl, wvls, sun, azi, sat)
r2 = Rayleigh("Imaginary-2", "someinst")
a, b = r.get_reflectance(*A, "ch1"), r2.get_reflectance(*A, "ch1")
assert abs(a[0] - b[0]) > 1, (a, b)
''')

bug("c30-lut-name", "C30", [(RAY, "    with h5py.File(lut_filename, 'r') as h5f:\n        rayleigh_refl", "    key = lut_filename.name, float(wvl)\n    if key in _TABLES:\n        return _TABLES[key]\n    with h5py.File(lut_filename, 'r') as h5f:\n        rayleigh_refl"),
  (RAY, "    return raylwvl\n", "    _TABLES[key] = raylwvl\n    return raylwvl\n"),
  (RAY, "def _get_wavelength_adjusted", "_TABLES: dict = {}\n\n\ndef _get_wavelength_adjusted")],
  "two aerosol types at the same wavelength in one program", "the second aerosol type is corrected with the table of the first one",
RAYDEMO + '''
ray_lut(refl * .5, wvls, sun, azi, sat, aerosol="rural_aerosol")
r2 = Rayleigh("Imaginary-1", "someinst", aerosol_type="rural_aerosol")
a, b = r.get_reflectance(*A, 0.55), r2.get_reflectance(*A, 0.55)
assert abs(a[0] - b[0]) > 1, (a, b)
''')

bug("c30-lazy-table", "C30", [("pyspectral/radiance_tb_conversion.py", "                retv['radiance'] = index.map_blocks(self._getitem, lut_radiance, dtype=lut_radiance.dtype)\n",
  "                # keep the table out of the task graph\n                self._lut_radiance = lut_radiance\n                retv['radiance'] = index.map_blocks(self._lookup, dtype=lut_radiance.dtype)\n"),
  ("pyspectral/radiance_tb_conversion.py", "    def tb2radiance(self, tb_, lut=None, normalized=True):\n        \"\"\"Get the radiance from the brightness temperature (Tb) given", "    def _lookup(self, block):\n        return self._getitem(block, self._lut_radiance)\n\n    def tb2radiance(self, tb_, lut=None, normalized=True):\n        \"\"\"Get the radiance from the brightness temperature (Tb) given")],
  "dask arrays, two tables with one converter, the first result computed after the second call", "a lazy result changes with the table of the next call",
'''
import dask.array as da
from pyspectral.radiance_tb_conversion import RadTbConverter
rsr_file("Imaginary-1", "someinst", {"ch4": ([10., 11., 12.], [0., 1., 0.], 11.)})
c = RadTbConverter("Imaginary-1", "someinst", "ch4")
tb = np.arange(200, 300, .1)
one, two = {"tb": tb, "radiance": np.linspace(1, 2, len(tb))}, {"tb": tb, "radiance": np.linspace(5, 6, len(tb))}
t = da.from_array(np.array([[250.05, 260.05]]), chunks=1)
a = c.tb2radiance(t, lut=one)["radiance"]
c.tb2radiance(t, lut=two)
assert a.compute().max() < 3, a.compute()
''')

bug("c30-limb-cache", "C30", [("pyspectral/atm_correction_ir.py", "class AtmosphericalCorrection", "_DELTA: dict = {}\n\n\nclass AtmosphericalCorrection"),
  ("pyspectral/atm_correction_ir.py", "        return (1 + DELTA_REF)**ratio(z, Z_0, Z_REF) - 1\n", "        key = np.shape(z), float(np.min(z)), float(np.max(z))\n        if key not in _DELTA:\n            _DELTA[key] = (1 + DELTA_REF)**ratio(z, Z_0, Z_REF) - 1\n        return _DELTA[key]\n")],
  "two images with the same number of pixels and the same extreme angles", "the second image is corrected with the angles of the first one",
'''
from pyspectral.atm_correction_ir import AtmosphericalCorrection
a = AtmosphericalCorrection("Imaginary-1", "someinst")
t = np.full((1, 3), 290.)
x = a.get_correction(np.array([[20., 30., 60.]]), "M4", t)
y = a.get_correction(np.array([[20., 50., 60.]]), "M4", t)
assert abs(x[0, 1] - y[0, 1]) > .1, (x, y)
''')

bug("c26-wn-whole", "C26", [("pyspectral/solar.py", "                start = self.wavenumber[0]\n                end = self.wavenumber[-1]\n", "                start = self.wavenumber[0]\n                end = self.wavenumber[-2]\n")],
  "the whole spectrum interpolated in wavenumber space", "the last piece of the spectrum is left out", '''
from pyspectral.solar import SolarIrradianceSpectrum
import sys, os
fn = os.path.join(sys.argv[1], "sun.dat")
with open(fn, "w") as f:
    for w in (0.5, 0.6, 0.7, 0.9, 1.2):
        f.write("%f %f\\n" % (w, 1500 - 300 * w))
s = SolarIrradianceSpectrum(fn, wavespace="wavenumber", dlambda=50.)
s.interpolate()
assert abs(s.ipol_wavelength[-1] - 20000) < 1, s.ipol_wavelength[-1]
''')
bug("c21-append", "C21", [("pyspectral/utils.py", "    with h5py.File(filename, \"w\") as h5f:\n", "    with h5py.File(filename, \"a\") as h5f:\n")],
  "a conversion to a file that exists from an earlier one", "the conversion fails with the old file in place", '''
import sys
from pyspectral.utils import convert2hdf5
from pyspectral.rsr_reader import RelativeSpectralResponse
class Raw:
    scale = 1.0
    def __init__(self, band, platform):
        self.instrument, self.output_dir = "someinst", sys.argv[1]
        self.rsr = {"wavelength": np.array([1., 1.1, 1.2]), "response": np.array([.2, 1., .3]) * Raw.scale}
convert2hdf5(Raw, "Imaginary-1", ["ch1"])
Raw.scale = 0.5
convert2hdf5(Raw, "Imaginary-1", ["ch1"])
r = RelativeSpectralResponse(filename=sys.argv[1] + "/rsr_someinst_Imaginary-1.h5")
assert abs(r.rsr["ch1"]["det-1"]["response"][1] - 0.5) < 1e-6
''')
