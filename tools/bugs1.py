PRE = '''
import os, sys, warnings, logging
from pathlib import Path
import numpy as np
import h5py
warnings.simplefilter("ignore")
work = Path(sys.argv[1])
for d in ("rsr", "ray", "lut"):
    (work / d).mkdir(exist_ok=True)


def config(**kw):
    import yaml
    c = dict(rsr_dir=str(work / "rsr"), rayleigh_dir=str(work / "ray"), tb2rad_dir=str(work / "lut"), download_from_internet=False)
    c.update(kw)
    (work / "c.yaml").write_text(yaml.safe_dump(c))
    os.environ["PSP_CONFIG_FILE"] = str(work / "c.yaml")


def rsr_file(platform, sensor, bands, detectors=None):
    """bands: name -> (wavelengths, responses, central) or {det: ...}"""
    fn = work / "rsr" / ("rsr_%s_%s.h5" % (sensor, platform))
    with h5py.File(fn, "w") as h:
        h.attrs["description"] = "demo"
        h.attrs["platform_name"] = platform
        h.attrs["sensor"] = sensor
        h.attrs["band_names"] = list(bands)
        for b, v in bands.items():
            g = h.create_group(b)
            if not isinstance(v, dict):
                v = {"det-1": v}
            g.attrs["number_of_detectors"] = len(v)
            for d, (w, r, c) in v.items():
                s = g.create_group(d)
                s.attrs["central_wavelength"] = c
                x = s.create_dataset("wavelength", data=np.asarray(w, dtype="f8"))
                x.attrs["scale"] = 1e-6
                s.create_dataset("response", data=np.asarray(r, dtype="f8"))
    return fn


def ray_lut(refl, wvls, sun, azi, sat, aerosol="marine_clean_aerosol", atm="us-standard"):
    d = work / "ray" / aerosol
    d.mkdir(exist_ok=True)
    with h5py.File(d / ("rayleigh_lut_%s.h5" % atm.replace(" ", "_")), "w") as h:
        h["reflectance"] = np.asarray(refl, dtype="f8")
        h["wavelengths"] = np.asarray(wvls, dtype="f8")
        h["azimuth_difference"] = np.asarray(azi, dtype="f8")
        h["sun_zenith_secant"] = np.asarray(sun, dtype="f8")
        h["satellite_zenith_secant"] = np.asarray(sat, dtype="f8")


config()
'''
BB, RTC, NIR = "pyspectral/blackbody.py", "pyspectral/radiance_tb_conversion.py", "pyspectral/near_infrared_reflectance.py"
RAY, ATM, UT, RD = "pyspectral/rayleigh.py", "pyspectral/atm_correction_ir.py", "pyspectral/utils.py", "pyspectral/rsr_reader.py"
CF, SOL = "pyspectral/config.py", "pyspectral/solar.py"
BUGS = []


def bug(name, prop, edits, needs, breaks, demo):
    BUGS.append(dict(name=name, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=PRE + demo))


bug("c02-hot-waves", "C02", [(BB, "        denom = np.exp(exp_arg) - 1\n", "        denom = np.where(exp_arg > 60., np.exp(exp_arg), np.exp(exp_arg) - 1) if isinstance(exp_arg, np.ndarray) \\\n            else np.exp(exp_arg)\n")],
    "a dask temperature (Planck's law becomes Wien's approximation there, visible for warm scenes at long waves)",
    "radiances of lazily evaluated temperatures follow Wien's approximation instead of Planck's law",
    '''
import dask.array as da
from pyspectral.blackbody import blackbody
t = np.array([300., 390.])
a, b = blackbody(15e-6, t), np.asarray(blackbody(15e-6, da.from_array(t, chunks=1)))
assert np.allclose(a, b, rtol=1e-6), (a, b)
''')

bug("c03-integral-abs", "C03", [(RTC, "            self.rsr, info = convert2wavenumber(sensor.rsr)\n", "            self.rsr, info = convert2wavenumber(sensor.rsr)\n            self.blackbody_function = BLACKBODY_FUNC[WAVE_NUMBER]\n"),
                               (RTC, "self.response = self.rsr[self.bandname][self.detector]['response']\n", "self.response = self.rsr[self.bandname]['det-1']['response']\n")],
    "a detector other than the first, whose response differs from the first one's on the same number of points",
    "the band radiance of detector n uses the wavelengths of detector n with the responses of the first detector",
    '''
from pyspectral.radiance_tb_conversion import RadTbConverter
w = [10., 11., 12.]
rsr_file("Imaginary-1", "someinst", {"ch4": {"det-1": (w, [1., .5, 0.], 11.), "det-2": (w, [0., .5, 1.], 11.)}})
r = [RadTbConverter("Imaginary-1", "someinst", "ch4", detector=d).tb2radiance(np.array([300.]))["radiance"][0] for d in ("det-1", "det-2")]
assert abs(r[0] / r[1] - 1) > 1e-3, r
''')

bug("c04-start-round", "C04", [(RTC, "            start = int(lut['tb'][0] * self.tb_scale)\n", "            start = int(np.floor(lut['tb'][0])) * int(self.tb_scale)\n")],
    "a table that does not start at a whole degree",
    "every look-up is off by the fraction of a degree at which the table starts",
    '''
from pyspectral.radiance_tb_conversion import RadTbConverter
rsr_file("Imaginary-1", "someinst", {"ch4": ([10., 11., 12.], [0., 1., 0.], 11.)})
c = RadTbConverter("Imaginary-1", "someinst", "ch4")
tb = 200.5 + 0.1 * np.arange(100)
lut = {"tb": tb, "radiance": np.arange(100.)}
got = c.tb2radiance(np.array([203.05, 204.35]), lut=lut)["radiance"]
assert list(got) == [25., 38.], got
''')

bug("c06-co2-stale", "C06", [(NIR, "            self._rad3x_correction = np.float64(1.0)\n        self._rad3x_correction = self._rad3x_correction.astype(dtype)\n",
                             "            self._rad3x_correction = np.float64(1.0)\n        self._rad3x_correction = np.minimum(self._rad3x_correction, 1.0).astype(dtype)\n")],
    "a CO2 band that is warmer than the window band (inversions, high clouds)",
    "the CO2 correction factor is cut off at one",
    '''
from pyspectral.near_infrared_reflectance import Calculator
rsr_file("Imaginary-1", "someinst", {"ch20": ([3.5, 3.6, 3.7, 3.8, 3.9, 4.0], [0., .4, 1., .9, .3, 0.], 3.74)})
c = Calculator("Imaginary-1", "someinst", "ch20", solar_flux=2.0)
a = c.reflectance_from_tbs(np.array([20.]), np.array([270.]), np.array([230.]), tb_ir_co2=np.array([240.]))
b = c.reflectance_from_tbs(np.array([20.]), np.array([270.]), np.array([230.]))
assert abs(float(np.asarray(a)[0]) - float(np.asarray(b)[0])) > 1e-5, (a, b)
''')

bug("c07-night-zero", "C07", [(NIR, "            self._e3x = where(isnan(self._e3x), self._rad3x, self._e3x)\n", "            self._e3x = where(isnan(self._r3x) | (self._r3x < 0), self._rad3x, self._e3x)\n")],
    "a pixel whose reflectance is negative (3.7 um colder than the window band, as over thin cirrus)",
    "the emissive part ignores negative reflectances, so that reflected and emitted parts no longer add up",
    '''
from pyspectral.near_infrared_reflectance import Calculator
rsr_file("Imaginary-1", "someinst", {"ch20": ([3.5, 3.6, 3.7, 3.8, 3.9, 4.0], [0., .4, 1., .9, .3, 0.], 3.74)})
c = Calculator("Imaginary-1", "someinst", "ch20", solar_flux=2.0)
r = np.asarray(c.reflectance_from_tbs(np.array([20.]), np.array([270.]), np.array([285.])))
assert r[0] < 0
e = np.asarray(c.emissive_part_3x(tb=False))
want = c.tb2radiance(np.array([285.]), lut=c.lut)["radiance"] * (1 - r)
assert np.allclose(e, want, rtol=1e-6), (e, want)
''')

bug("c09-azimuth-wrap", "C09", [(RAY, "180 - azidiff.ravel()", "np.where(azidiff.ravel() > 90, 180 - azidiff.ravel(), np.clip(180 - azidiff.ravel(), azid_coord[1], None))")],
    "azimuth differences below 90 degrees in a table whose second azimuth node is above 90",
    "the azimuth difference is clipped at the second node of the table for forward scattering",
    '''
from pyspectral.rayleigh import Rayleigh
refl = np.zeros((2, 2, 2, 2)); refl[:, :, 1, :] = 1.0
ray_lut(refl, [400., 800.], [1., 3.], [0., 180.], [1., 3.])
r = Rayleigh("Imaginary-1", "someinst")
got = r.get_reflectance(np.array([30.]), np.array([30.]), np.array([45.]), 0.55)
assert abs(got[0] - 75.0) < 1e-6, got
''')

bug("c10-red-input", "C10", [(RAY, "        return np.where(redband < 20., rayleigh_refl,\n", "        redband[redband < 0] = 0\n        return np.where(redband < 20., rayleigh_refl,\n")],
    "a negative red reflectance (dark pixels after calibration)",
    "the red band of the caller is modified",
    '''
from pyspectral.rayleigh import Rayleigh
ray_lut(np.full((2, 2, 2, 2), 0.3), [400., 800.], [1., 3.], [0., 180.], [1., 3.])
r = Rayleigh("Imaginary-1", "someinst")
red = np.array([-2., 30.])
r.get_reflectance(np.array([30., 30.]), np.array([30., 30.]), np.array([45., 45.]), 0.55, red)
assert list(red) == [-2., 30.], red
''')

bug("c13-cache", "C13", [(RAY, "def get_reflectance_lut_from_file(lut_filename):", "_WVL_CACHE: dict = {}\n\n\ndef get_reflectance_lut_from_file(lut_filename):"),
                        (RAY, "        wavelength_index, wavelength_factor = _get_wavelength_index_and_factor(wvl_coord, wvl)\n        raylwvl = (", "        key = (lut_filename.name, wvl)\n        if key in _WVL_CACHE:\n            return _WVL_CACHE[key]\n        wavelength_index, wavelength_factor = _get_wavelength_index_and_factor(wvl_coord, wvl)\n        raylwvl = ("),
                        (RAY, "    return raylwvl\n", "    _WVL_CACHE[key] = raylwvl\n    return raylwvl\n")],
    "two aerosol types used one after the other with the same atmosphere and wavelength in one process",
    "the second correction uses the table of the first aerosol type",
    '''
from pyspectral.rayleigh import Rayleigh
ax = ([400., 800.], [1., 3.], [0., 180.], [1., 3.])
ray_lut(np.full((2, 2, 2, 2), 0.3), *ax, aerosol="urban_aerosol")
ray_lut(np.full((2, 2, 2, 2), 0.1), *ax, aerosol="desert_aerosol")
a = [np.array([30.])] * 3
got = [Rayleigh("Imaginary-1", "someinst", aerosol_type=t).get_reflectance(*a, 0.55)[0] for t in ("urban_aerosol", "desert_aerosol")]
assert np.allclose(got, [30., 10.]), got
''')

bug("c14-nadir-dask", "C14", [(ATM, "da.where((view_zen > 0) & (view_zen < 90),", "da.where((view_zen > 0) & (view_zen <= 90),"),
                             (ATM, "(view_zen > 0) & (view_zen < 90) & (~np", "(view_zen > 0) & (view_zen <= 90) & (~np")],
    "a view angle of exactly 90 degrees",
    "pixels at 90 degrees are corrected although they are not seen",
    '''
import dask.array as da
from pyspectral.atm_correction_ir import AtmosphericalCorrection
c = AtmosphericalCorrection("Imaginary-1", "someinst")
t, z = np.array([[280., 280.]]), np.array([[90., 95.]])
got = np.asarray(c.get_correction(da.from_array(z), "M4", da.from_array(t)))
assert np.allclose(got, 280.), got
''')

bug("c15-view", "C15", [(UT, "            band_wavenumbers[det] = ch_rsr[det].copy()\n", "            band_wavenumbers[det] = ch_rsr[det]\n            ch_rsr[det].setdefault(\"central_wavenumber\", None)\n")],
    "a response that is already in wavenumber space",
    "the input dictionary is modified and shared with the result",
    '''
from pyspectral.utils import convert2wavenumber
src = {"ch1": {"det-1": {"wavenumber": np.array([900., 910.]), "response": np.array([.5, 1.])}}}
before = sorted(src["ch1"]["det-1"])
got, _ = convert2wavenumber(src)
assert sorted(src["ch1"]["det-1"]) == before, src
''')

bug("c17-nearest", "C17", [(UT, "    if len(chfound) == 1:\n        return chfound[0]\n", "    if len(set(chfound)) == 1 or (len(chfound) > 1 and epsilon < 0.05 and not multiple_bands):\n        return chfound[0]\n")],
    "two bands within a tolerance smaller than 0.05 um",
    "an ambiguous wavelength is answered with the first band instead of being refused",
    '''
from pyspectral.utils import get_bandname_from_wavelength
rsr = {"ch1": {"det-1": {"central_wavelength": 0.640}}, "ch2": {"det-1": {"central_wavelength": 0.655}}}
try:
    got = get_bandname_from_wavelength("someinst", 0.65, rsr, epsilon=0.04)
except AttributeError:
    sys.exit(0)
sys.exit("got %r" % got)
''')

bug("c18-close", "C18", [(UT, "(np.diff(x_vals) > 0)]", "(np.diff(x_vals) > 1e-3)]")],
    "distinct abscissae closer than 0.001",
    "points that are not duplicates are removed",
    '''
from pyspectral.utils import sort_data
x, y = sort_data(np.array([0.5004, 0.5, 0.5008]), np.array([1., 2., 3.]))
assert len(x) == 3, (x, y)
''')

bug("c21-scale", "C21", [(RD, "        wvl = (h5f[band_name]['wavelength'][:] *\n               h5f[band_name]['wavelength'].attrs['scale'])\n", "        wvl = (h5f[band_name]['wavelength'][:] *\n               h5f[band_name]['wavelength'].attrs.get('scale', 1e-6))\n        if wvl.max() > 1e-4:\n            wvl = h5f[band_name]['wavelength'][:] * 1e-6\n"),
                        ],
    "a file whose band-level wavelengths are beyond 100 um after scaling (far infrared or microwave)",
    "the scale of the file is ignored for long waves",
    '''
from pyspectral.rsr_reader import RelativeSpectralResponse
fn = work / "rsr" / "x.h5"
with h5py.File(fn, "w") as h:
    h.attrs["description"] = "demo"; h.attrs["platform_name"] = "P"; h.attrs["sensor"] = "s"; h.attrs["band_names"] = ["ch1"]
    g = h.create_group("ch1"); g.attrs["central_wavelength"] = 150.
    d = g.create_dataset("wavelength", data=np.array([140e3, 150e3, 160e3])); d.attrs["scale"] = 1e-9
    g["response"] = np.array([0., 1., 0.])
r = RelativeSpectralResponse(filename=fn)
assert np.allclose(r.rsr["ch1"]["det-1"]["wavelength"], [140., 150., 160.]), r.rsr["ch1"]
''')

bug("c23-merge", "C23", [(CF, "            r = recursive_dict_update(d.get(k, {}), v)\n", "            r = recursive_dict_update(d.get(k) or {}, v) if v else d.get(k, {})\n"),
                        (CF, "    config: dict[str, Any] = {}\n", "    config: dict[str, Any] = _LAST_CONFIG\n"), (CF, "def recursive_dict_update", "_LAST_CONFIG: dict[str, Any] = {}\n\n\ndef recursive_dict_update")],
    "two configuration files read one after the other in one process, the first with a setting that the second lacks",
    "settings of an earlier configuration file survive",
    '''
from pyspectral.config import get_config
config(extra=1)
get_config()
(work / "d.yaml").write_text("rsr_dir: %s\\nrayleigh_dir: %s\\n" % (work / "rsr", work / "ray"))
got = get_config(work / "d.yaml")
assert "extra" not in got and "download_from_internet" not in got, got
''')

bug("c24-version", "C24", [(RD, "        return self.rsr_data_version == RSR_DATA_VERSION\n", "        return self.rsr_data_version.startswith(RSR_DATA_VERSION)\n")],
    "a version file whose version has the current one as a prefix (v1.4.1 and v1.4.10)",
    "data of another version count as up to date",
    '''
from pyspectral.rsr_reader import _RSRDataBase
from pyspectral.utils import RSR_DATA_VERSION
(work / "rsr" / "PYSPECTRAL_RSR_VERSION").write_text(RSR_DATA_VERSION + "0")
assert _RSRDataBase().download_rsr_updates() is True
''')

bug("c25-partial", "C25", [(UT, "    response.raise_for_status()\n", "    if response.status_code >= 500:\n        LOG.warning(\"The server is not available, keep the local data\")\n        return\n    response.raise_for_status()\n")],
    "a server error (5xx)",
    "a failed download is only logged, not reported",
    '''
import requests
from unittest import mock
from pyspectral import utils
class R:
    status_code = 503
    headers = {}
    def raise_for_status(self):
        raise requests.exceptions.HTTPError("503")
    def iter_content(self, chunk_size=1):
        return iter([])
with mock.patch.object(requests, "get", return_value=R()):
    try:
        utils.download_rsr()
    except Exception:
        sys.exit(0)
sys.exit("no error")
''')

bug("c26-detector", "C26", [(SOL, "                wvl = rsr[detector_name]['wavelength'] * scale\n                resp = rsr[detector_name]['response']\n        else:", "                wvl = rsr[detector_name]['wavelength'] * scale\n                resp = rsr[min(rsr)]['response'] if len(rsr) > 1 and flux else rsr[detector_name]['response']\n        else:")],
    "the flux of a detector other than the first",
    "the in-band flux of detector n is weighted with the response of the first detector",
    '''
from pyspectral.solar import SolarIrradianceSpectrum
s = SolarIrradianceSpectrum(dlambda=0.005)
w = np.linspace(0.5, 0.8, 7)
rsr = {"det-1": {"wavelength": w, "response": np.ones(7)}, "det-2": {"wavelength": w, "response": np.ones(7) * .5}}
a, b = s.inband_solarflux(rsr, detector=1), s.inband_solarflux(rsr, detector=2)
assert abs(b / a - .5) < 1e-6, (a, b)
''')
