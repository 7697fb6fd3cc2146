"""C30: no result depends on what was calculated before."""
import numpy as np

from props.c26 import W1, W1E, W1S, W2, spectrum
from props.common import Cfg, wrap
from props.nirlib import NTAB, R, START, W
from props.raylib import write_lut

ASSUMPTIONS = ["two calls of each public calculation, optionally with a refused call or one of another object in between, of 1-2 pixels each, compared with the same "
               "calls in a freshly imported package; arrays in numpy, dask and xarray"]


# Each target: prepare(env) writes the files; make(env, other) gives the function; args(env, tag, form, shape) its arguments.
def no_files(env):
    return None


def arr(env, tag, name, form, shape, lo, hi, dt="float64"):
    if tag == "first" and env.plain:
        # fixed values in the first call: the second one can still take the same values
        return wrap(env, (lo + (hi - lo) * np.linspace(0.37, 0.52, int(np.prod(shape)))).reshape(shape).astype(dt), form)
    return wrap(env, env.reals("%s.%s" % (tag, name), shape, lo, hi, np.dtype(dt)), form)


def planck_args(env, tag, form, shape):
    return [env.real(tag + ".wl", 3.0, 15.0) * 1e-6, arr(env, tag, "t", form, shape, 180.0, 350.0)]


def planck_wn_args(env, tag, form, shape):
    return [env.real(tag + ".wn", 700.0, 3000.0) * 100.0, arr(env, tag, "t", form, shape, 180.0, 350.0)]


def rad_args(env, tag, form, shape):
    return [env.real(tag + ".wl", 3.0, 15.0) * 1e-6, arr(env, tag, "r", form, shape, 1e4, 1e7)]


def rad_wn_args(env, tag, form, shape):
    return [env.real(tag + ".wn", 700.0, 3000.0) * 100.0, arr(env, tag, "r", form, shape, 1e-6, 1e-3)]


def bb(name):
    return lambda env, other=False: getattr(env.mod("blackbody"), name)


# -- brightness temperatures and radiances ---------------------------------------------
def ir_files(env):
    def det(c, *r):
        return {"wavelength": np.array([c - 0.5, c, c + 0.5]), "response": np.array(r), "central_wavelength": c}
    for p, d in (("Imaginary-1", 0.0), ("Imaginary-2", 0.2)):
        env.write_rsr(p, "someinst", {"ch4": {"det-1": det(10.8 + d, 0.1, 1.0, 0.2), "det-2": det(10.8 + d, 0.3, 0.9, 0.1)},
                                      "ch5": {"det-1": det(12.0 + d, 0.0, 1.0, 0.5), "det-2": det(12.0 + d, 0.2, 1.0, 0.1)}})
    return {"tb": START + 0.1 * np.arange(NTAB), "radiance": env.table("rad", NTAB, 0.0, 5.0e6)}


def converter(env, k):
    rtc = env.mod("radiance_tb_conversion")
    if k:
        return rtc.RadTbConverter("Imaginary-2" if k == "platform" else "Imaginary-1", "someinst", "ch5" if k == "band" else "ch4",
                                  **({"detector": "det-2"} if k == "detector" else {"wavespace": "wavenumber"} if k == "space" else {}))
    return rtc.RadTbConverter("Imaginary-1", "someinst", "ch4")


def tb2rad(env, other=False):
    c = converter(env, other)
    return lambda t, n: c.tb2radiance(t, normalized=n)["radiance"]


def tb_args(env, tag, form, shape):
    return [arr(env, tag, "t", form, shape, 180.0, 350.0), env.bool(tag + ".normalized")]


def tb2rad_lut(env, other=False):
    c = converter(env, other)
    return lambda t, lut: c.tb2radiance(t, lut=lut)["radiance"]


def lut_args(env, tag, form, shape):
    lut = env.luts[env.choice(tag + ".lut", [0, 1])]
    return [arr(env, tag, "t", form, shape, START + 0.05, START + 159.9), lut]


def two_luts(env):
    lut = ir_files(env)
    env.luts = [lut, {"tb": lut["tb"], "radiance": env.table("rad2", NTAB, 0.0, 5.0e6)}]


def rad2tb(env, other=False):
    return converter(env, other).radiance2tb


def rad2tb_args(env, tag, form, shape):
    return [arr(env, tag, "r", form, shape, 1e4, 1e7)]


def seviri(env, other=False):
    rtc = env.mod("radiance_tb_conversion")
    sat, band = "Meteosat-9", "IR10.8"
    if other:
        sat, band = other
    c = rtc.SeviriRadTbConverter(sat, band)
    return lambda t: c.tb2radiance(t)["radiance"]


def seviri_back(env, other=False):
    rtc = env.mod("radiance_tb_conversion")
    sat, band = "Meteosat-9", "IR10.8"
    if other:
        sat, band = other
    return rtc.SeviriRadTbConverter(sat, band).radiance2tb


def tb1_args(env, tag, form, shape):
    return [arr(env, tag, "t", form, shape, 180.0, 350.0)]


def rad1_args(env, tag, form, shape):
    return [arr(env, tag, "r", form, shape, 1e-6, 1e-3)]


# -- the 3.x micron reflectance -----------------------------------------------------------
def nir_files(env):
    d = {"wavelength": np.array(W), "response": np.array(R), "central_wavelength": 3.74}
    d2 = {"wavelength": np.array(W) + 0.1, "response": np.array(R), "central_wavelength": 3.84}
    far = {"wavelength": np.array(W) + 7.0, "response": np.array(R), "central_wavelength": 10.74}
    for p in ("Imaginary-1", "Imaginary-2"):
        a, b = (d, d2) if p == "Imaginary-1" else (d2, d)
        env.write_rsr(p, "someinst", {"ch20": {"det-1": a, "det-2": b}, "ch31": {"det-1": far, "det-2": far}})
    tb = START + 0.1 * np.arange(NTAB)
    env.luts = [{"tb": tb, "radiance": env.table("rad", NTAB, 0.0, 1.0e5)}]


def nir(emissive):
    def make(env, other=False):
        kw = {"solar_flux": 2.0}
        p = "Imaginary-1"
        if other:
            k = other
            p = "Imaginary-2" if k == "platform" else p
            kw.update({"detector": {"detector": "det-2"}, "flux": {"solar_flux": 3.0},
                       "mask": {"masking_limit": None, "sunz_threshold": 70.0}}.get(k, {}))
        c = env.mod("near_infrared_reflectance").Calculator(p, "someinst", "ch20", **kw)

        def call(sz, tn, tt, co):
            r = c.reflectance_from_tbs(sz, tn, tt, lut=env.luts[0], **({} if co is None else {"tb_ir_co2": co}))
            return c.emissive_part_3x(tb=False) if emissive else r
        return call
    return make


def nir_args(env, tag, form, shape):
    co = arr(env, tag, "co", form, shape, 200.0, 280.0) if tag == "first" and env.bool("first.co2") else None
    # the clips and masks of each pixel are decided elsewhere (C06): here one regime, so that two calls stay affordable
    lo, hi = (10.0, 80.0)
    return [arr(env, tag, "sz", form, shape, lo, hi), arr(env, tag, "tn", form, shape, 295.0, 340.0),
            arr(env, tag, "tt", form, shape, 240.0, 290.0), co]


# -- the Rayleigh correction ---------------------------------------------------------------
def ray_fixed(env):
    ray_files(env, True)


def ray_files(env, fixed=False):
    for i, a in enumerate(("marine_clean_aerosol", "rural_aerosol")):
        for j, atm in enumerate(("us-standard", "tropical")):
            vals = [0.2 + 0.011 * (7 * n % 12) + 0.05 * i + 0.03 * j if fixed else env.real("v%d%d.%d" % (i, j, n), 0.0, 1.0) for n in range(12)]
            # independent values at the corners that the pixels use, fixed ones elsewhere
            tab = np.linspace(0.05, 0.4, 24).reshape(3, 2, 2, 2).tolist()
            for w in range(3):
                for c, (x, y, z) in enumerate(((0, 0, 0), (0, 1, 0), (1, 1, 1), (0, 0, 1))):
                    tab[w][x][y][z] = vals[4 * w + c]
            flat = [tab[w][x][y][z] for w in range(3) for x in range(2) for y in range(2) for z in range(2)]
            write_lut(env, env.array(flat).reshape((3, 2, 2, 2)), [400.0, 550.0, 800.0], 2, 2, 2, aerosol=a, atm=atm)
    d = {"wavelength": np.array([0.62, 0.64, 0.66]), "response": np.array([0.0, 1.0, 0.0]), "central_wavelength": 0.64}
    e = {"wavelength": np.array([0.46, 0.48, 0.50]), "response": np.array([0.2, 1.0, 0.0]), "central_wavelength": 0.48}
    for p, (x, y) in (("Imaginary-1", (e, d)), ("Imaginary-2", (d, e))):
        env.write_rsr(p, "someinst", {"ch1": {"det-1": x}, "ch2": {"det-1": y}})


def rayleigh(env, other=False):
    p, kw = "Imaginary-1", {}
    if other:
        k = other
        p = "Imaginary-2" if k == "platform" else p
        kw = {"aerosol": {"aerosol_type": "rural_aerosol"}, "atmosphere": {"atmosphere": "tropical"}}.get(k, {})
    r = env.mod("rayleigh").Rayleigh(p, "someinst", **kw)
    return lambda s, v, a, b, red: r.get_reflectance(s, v, a, b, red)


def ray_args(env, tag, form, shape):
    n = int(np.prod(shape))
    band = env.real(tag + ".wl", 0.41, 0.54) if env.choice(tag + ".by", ["wavelength", "name"]) == "wavelength" else env.choice(
        tag + ".band", ["ch1", "ch2"])
    azi = env.choice(tag + ".azi", [0.0, 180.0])

    def const(x):
        return wrap(env, np.full(shape, x), form)
    red = arr(env, tag, "red", form, shape, 30.0, 90.0) if tag == "first" and env.bool("first.red") else None
    return [const(0.0), const(0.0), const(azi), band, red]


def ray_angles(env, tag, form, shape):
    """Arbitrary angles at a table wavelength."""
    return [arr(env, tag, "s", form, shape, 5.0, 60.0), arr(env, tag, "v", form, shape, 5.0, 50.0), arr(env, tag, "a", form, shape, 1.0, 179.0),
            0.55, None]


def ray_refused(env, f, form):
    def const(x):
        return wrap(env, np.full((1,), x), form)
    env.assert_true("an unknown band is refused", env.raises(KeyError, f, const(0.0), const(0.0), const(0.0), "nosuchband", None))


def high(env, other=False):
    return env.mod("rayleigh").Rayleigh.reduce_rayleigh_highzenith


def high_args(env, tag, form, shape):
    return [arr(env, tag, "z", form, shape, 0.0, 90.0), arr(env, tag, "r", form, shape, 0.0, 100.0), env.real(tag + ".t", 10.0, 60.0),
            env.real(tag + ".m", 70.0, 110.0), env.real(tag + ".s", 0.0, 2.0)]


def limb(env, other=False):
    if other:
        return lambda z, t: env.mod("atm_correction_ir").AtmosphericalCorrection("Imaginary-2", "otherinst").get_correction(z, "M12", t)
    return lambda z, t: env.mod("atm_correction_ir").AtmosphericalCorrection("Imaginary-1", "someinst").get_correction(z, "M4", t)


def limb_args(env, tag, form, shape):
    shape = (1,) + tuple(shape) if len(shape) == 1 else shape
    return [arr(env, tag, "z", form, shape, 5.0, 85.0), arr(env, tag, "t", form, shape, 180.0, 330.0)]


# -- the sun -----------------------------------------------------------------------------------
def sun_files(env):
    env.suns = [spectrum(env), spectrum(env, "sun2.dat", coef=(1500.0, -200.0, 30.0, -5.0))]


def sun(what):
    def make(env, other=False):
        fn, kw = env.suns[0], {"dlambda": 0.1}
        if other:
            fn, kw = (env.suns[1], kw) if other == "file" else (fn, {"dlambda": 0.05})
        s = env.mod("solar").SolarIrradianceSpectrum(fn, **kw)
        return getattr(s, what) if what != "solar_constant" else lambda rsr, **k: np.array([s.solar_constant()])
    return make


def sun_args(env, tag, form, shape):
    ws = [W1, W2, W1E, W1S][env.choice(tag + ".band", [0, 1, 2, 3])]
    rs = [env.real("%s.r%d" % (tag, i), 0.1, 1.0) for i in range(len(ws))]
    return [{"wavelength": np.array(ws), "response": env.array(rs)}]


# -- responses -----------------------------------------------------------------------------------
def rsr_files(env):
    for p in ("Imaginary-1", "Imaginary-2"):
        bands = {}
        for b, c in (("ch1", 0.6), ("ch2", 0.9)):
            bands[b] = {}
            for d in ("det-1", "det-2"):
                rs = [env.real("%s.%s.%s.%d" % (p, b, d, i), 0.1, 1.0) for i in range(3)]
                bands[b][d] = {"wavelength": np.array([c - 0.05, c, c + 0.06]), "response": env.array(rs), "central_wavelength": c}
        env.write_rsr(p, "someinst", bands)


def rsr(what):
    def make(env, other=False):
        r = env.mod("rsr_reader").RelativeSpectralResponse("Imaginary-2" if other else "Imaginary-1", "someinst")

        def responses(band):
            return np.concatenate([env.array(env.flat(r.rsr[band][d]["response"])) for d in ("det-1", "det-2")])

        def wavenumbers(band):
            out, _ = env.mod("utils").convert2wavenumber(r.rsr)
            return np.concatenate([env.array(env.flat(out[band][d][k])) for d in ("det-1", "det-2") for k in ("wavenumber", "response")])

        def integral(band):
            v = r.integral(band)
            return env.array([v[d] for d in ("det-1", "det-2")])
        return {"responses": responses, "integral": integral, "wavenumbers": wavenumbers}[what]
    return make


def rsr_args(env, tag, form, shape):
    return [env.choice(tag + ".band", ["ch1", "ch2"])]


def util(name):
    def make(env, other=False):
        f = getattr(env.mod("utils"), name)

        def call(w, r):
            v = f(w, r) if name in ("get_central_wave", "sort_data") else f(r, w)
            return np.concatenate([env.array(env.flat(x)) for x in v]) if name == "sort_data" else env.array(env.flat(v))
        return call
    return make


def wave_args(env, tag, form, shape):
    n = 3
    return [env.array([env.real("%s.w%d" % (tag, i), 0.4 + 0.1 * i, 0.49 + 0.1 * i) for i in range(n)]),
            env.array([env.real("%s.r%d" % (tag, i), 0.1, 1.0) for i in range(n)])]


def nearest(env, other=False):
    r = env.mod("rsr_reader").RelativeSpectralResponse("Imaginary-2" if other else "Imaginary-1", "someinst")
    return lambda w, e: [str(r.get_bandname_from_wavelength(w, e))]


def nearest_files(env):
    for p, d in (("Imaginary-1", 0.0), ("Imaginary-2", 0.15)):
        env.write_rsr(p, "someinst", {b: {"det-1": {"wavelength": np.array([c + d - 0.05, c + d, c + d + 0.06]), "response": np.array([0.1, 1.0, 0.1]),
                                                    "central_wavelength": c + d}} for b, c in (("ch1", 0.6), ("ch2", 0.9))})


def nearest_args(env, tag, form, shape):
    return [env.real(tag + ".w", 0.4, 1.2), env.choice(tag + ".eps", [0.1, 0.14])]


TARGETS = {
    "blackbody": (no_files, bb("blackbody"), planck_args, None), "blackbody-wn": (no_files, bb("blackbody_wn"), planck_wn_args, None),
    "rad2temp": (no_files, bb("blackbody_rad2temp"), rad_args, None), "wn-rad2temp": (no_files, bb("blackbody_wn_rad2temp"), rad_wn_args, None),
    "tb2radiance": (ir_files, tb2rad, tb_args, None), "tb2radiance-table": (two_luts, tb2rad_lut, lut_args, None),
    "radiance2tb": (ir_files, rad2tb, rad2tb_args, None), "seviri": (no_files, seviri, tb1_args, None),
    "seviri-back": (no_files, seviri_back, rad1_args, None),
    "reflectance": (nir_files, nir(False), nir_args, None), "emissive": (nir_files, nir(True), nir_args, None),
    "rayleigh": (ray_files, rayleigh, ray_args, ray_refused), "rayleigh-angles": (ray_fixed, rayleigh, ray_angles, ray_refused),
    "high-zenith": (no_files, high, high_args, None), "limb": (no_files, limb, limb_args, None),
    "solar-flux": (sun_files, sun("inband_solarflux"), sun_args, None),
    "solar-irradiance": (sun_files, sun("inband_solarirradiance"), sun_args, None),
    "solar-constant": (sun_files, sun("solar_constant"), sun_args, None),
    "responses": (rsr_files, rsr("responses"), rsr_args, None), "integral": (rsr_files, rsr("integral"), rsr_args, None),
    "wavenumbers": (rsr_files, rsr("wavenumbers"), rsr_args, None), "central-wave": (no_files, util("get_central_wave"), wave_args, None),
    "sort": (no_files, util("sort_data"), wave_args, None), "nearest": (nearest_files, nearest, nearest_args, None),
}
SPACES = ["platform", "band", "detector", "space"]
SATS = [("Meteosat-8", "IR10.8"), ("Meteosat-9", "IR12.0")]
OTHERS = {tb2rad: SPACES, tb2rad_lut: SPACES, rad2tb: SPACES[:3], seviri: SATS, seviri_back: SATS,
          rayleigh: ["platform", "aerosol", "atmosphere"]}
for _t in TARGETS:
    if _t.startswith("solar"):
        OTHERS[TARGETS[_t][1]] = ["file", "step"]
    elif _t in ("reflectance", "emissive"):
        OTHERS[TARGETS[_t][1]] = ["platform", "detector", "flux", "mask"]
ARRAYS = ("blackbody", "blackbody-wn", "rad2temp", "wn-rad2temp", "tb2radiance", "tb2radiance-table", "radiance2tb", "seviri", "seviri-back",
          "reflectance", "emissive", "rayleigh", "rayleigh-angles", "high-zenith", "limb")


def same(env, label, got, want):
    if isinstance(want, list):
        env.assert_equal(label, got, want)
        return
    if hasattr(want, "shape"):
        env.assert_shape(label + ": shape", got, want.shape)
    if hasattr(want, "dtype"):
        env.assert_dtype(label + ": type", got, want.dtype)
    env.assert_close(label, got, env.flat(want), rtol=1e-12)


def history(env, target, forms, shapes, other):
    prepare, make, args, refused = TARGETS[target]
    env.plain = shapes[0] == (2,) or target in ("reflectance", "emissive", "rayleigh-angles") and (other or shapes[1] != (1,))
    prepare(env)
    if other:
        other = env.choice("other", OTHERS.get(make, ["other"]))
    f = make(env)
    g = make(env, other) if other else f
    a1, a2 = args(env, "first", forms[0], shapes[0]), args(env, "second", forms[1], shapes[1])
    r1 = g(*a1)
    if refused is not None and env.bool("refused"):
        refused(env, f, forms[1])
    r2 = f(*a2)
    env.fresh()
    same(env, "the second result", r2, make(env)(*a2))
    env.fresh()
    same(env, "the first result", r1, make(env, other)(*a1))


def configs(tier):
    th = tier == "thorough"
    out = []
    for t in TARGETS:
        for other in (False, True):
            pairs = [(("numpy", "numpy"), ((1,), (1,)))]
            if t in ARRAYS:
                pairs.append((("dask", "dask"), ((1,), (1,))))
                if not other or th:
                    pairs.append((("numpy", "numpy"), ((1,), (1, 2))))
                    pairs.append((("numpy", "numpy"), ((2,), (2,))))
                if th:
                    pairs += [(("dask", "numpy"), ((1,), (1,))), (("numpy", "dask"), ((2,), (1,))), (("xarray", "xarray"), ((1,), (1,)))]
            if other and t in ("blackbody", "blackbody-wn", "rad2temp", "wn-rad2temp", "high-zenith", "central-wave", "sort"):
                continue
            for forms, shapes in pairs:
                out.append(Cfg("%s-%s-%s-%s" % (t, "other" if other else "same", "-".join(sorted(set(forms), key=forms.index)),
                                                "x".join(str(n) for n in shapes[1])), history,
                               dict(target=t, forms=forms, shapes=shapes, other=other), must_reach=["the first result"],
                               budget=600 if th else 120, bounds="2 calls of 1-2 pixels"))
    return out
