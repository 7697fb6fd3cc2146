"""C12: the Rayleigh table is used at the effective wavelength of the band."""
import numpy as np

from props.common import Cfg, wrap
from props.raylib import clip, write_lut
from props.rsrlib import sym_det, trapz

ASSUMPTIONS = ["tables of 2-4 wavelengths (arbitrary increasing ones for two of the configurations) with arbitrary reflectances in "
               "[0, 1], one pixel at a node of the angles; responses of 3 points with arbitrary values, wavelengths in "
               "[0.2, 2.4] micrometre; wavelengths within rounding error of the ends of the table are not decided"]
NODE = (0.0, 0.0, 180.0)       # sun and satellite in the zenith, azimuth difference 180: the first entry of the table


def _lut(env, wvls, dt="float64"):
    vals = [env.real("v%d" % i, 0.0, 1.0) for i in range(len(wvls))]
    lut = env.array([vals[i] for i in range(len(wvls)) for _ in range(8)], np.dtype(dt)).reshape((len(wvls), 2, 2, 2))
    write_lut(env, lut, wvls, 2, 2, 2)
    return vals


def at(env, vals, wvls, nm):
    """The reflectance in percent at a wavelength in nanometre."""
    if env.le(nm, wvls[0], gap=1e-6) or env.le(wvls[-1], nm, gap=1e-6):
        return 0.0
    k = 1
    while k < len(wvls) - 1 and env.lt(wvls[k], nm, exact=True):
        k += 1
    f = (wvls[k] - nm) / (wvls[k] - wvls[k - 1])
    return 100.0 * (f * vals[k - 1] + (1 - f) * vals[k])


def by_wavelength(env, form, wvls, dt="float64"):
    wvls = list(wvls) if wvls else None
    if wvls is None:
        wvls = [env.real("w%d" % i, 350.0, 900.0) for i in range(3)]
        env.assume(wvls[0] + 5.0 < wvls[1])
        env.assume(wvls[1] + 5.0 < wvls[2])
    vals = _lut(env, wvls)
    wl = env.real("wl", 0.3, 1.0)
    want = at(env, vals, wvls, wl * 1000.0)
    ray = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    ang = [wrap(env, np.array([a], dtype=dt), form) for a in NODE]
    got = ray.get_reflectance(*ang, wl)
    env.assert_dtype("dtype of the angles", got, dt)
    env.assert_close("reflectance at the wavelength", got, [want], rtol=1e-6 if dt == "float64" else 1e-3,
                     atol=1e-6 if dt == "float64" else 1e-2)


def by_band(env, form, wide, bands=("ch1", "ch2"), n=3, respmin=0.05, respmax=1.0, span=None):
    """A band stands for the centre of its response, weighted with the fourth power of the wavenumber."""
    lo, hi = span or ((0.5, 0.6) if not wide else (0.7, 0.9))
    det = sym_det(env, "d", n, lo, hi, respmin=respmin, respmax=respmax, concrete=np.linspace(lo, hi, n))
    other = {"wavelength": np.array([0.42, 0.44, 0.46]), "response": np.array([0.0, 1.0, 0.0]), "central_wavelength": 0.44}
    two = {"wavelength": np.array([0.62, 0.64, 0.66]), "response": np.array([0.0, 1.0, 0.0]), "central_wavelength": 0.64}
    env.write_rsr("Imaginary-1", "someinst", {bands[0]: {"det-1": other}, bands[1]: {"det-1": det, "det-2": two}})
    wvls = [400.0, 545.0, 800.0] if not span else sorted([150.0, 440.5, lo * 500.0 + hi * 500.0, 3500.0])
    vals = _lut(env, wvls)
    ws, rs = det["ws"], det["rs"]
    den = trapz([r / w ** 4 for r, w in zip(rs, ws)], ws)
    eff = trapz([r * w / w ** 4 for r, w in zip(rs, ws)], ws) / den
    want = at(env, vals, wvls, eff * 1000.0)
    ray = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    ang = [wrap(env, np.array([a]), form) for a in NODE]
    got = ray.get_reflectance(*ang, bands[1])
    env.assert_close("reflectance at the effective wavelength", got, [want], rtol=1e-6, atol=1e-6)
    got2 = ray.get_reflectance(*ang, bands[0])
    xs = [0.42, 0.44, 0.46]
    env.assert_close("reflectance of the other band", got2, [at(env, vals, wvls, 440.0)], rtol=1e-6, atol=1e-6)
    env.assert_true("an unknown band is refused", env.raises(KeyError, ray.get_reflectance, *ang, "nosuchband"))


def number_types(env, kind):
    """A number is a wavelength, whatever the type of number."""
    if kind in ("int", "int64"):
        wvls = [500.0, 1500.0, 2600.0]
        wl = env.int("wl", 0, 4)
        wlf = wl * 1.0
        arg = wl if kind == "int" else env.array([wl], np.int64)[0]
    else:
        wvls = [400.0, 555.0, 800.0]
        arr = env.reals("wl", 1, 0.3, 1.0, np.dtype(kind))
        arg = arr[0]
        wlf = arg
    vals = _lut(env, wvls)
    want = at(env, vals, wvls, wlf * 1000.0)
    ray = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    got = ray.get_reflectance(*[np.array([a]) for a in NODE], arg)
    tol = 1e-2 if kind == "float32" else 1e-6
    env.assert_close("reflectance at the wavelength", got, [want], rtol=tol, atol=tol)


def no_rsr(env):
    vals = _lut(env, [400.0, 800.0])
    ray = env.mod("rayleigh").Rayleigh("Imaginary-9", "nosuchinst")
    ang = [np.array([a]) for a in NODE]
    env.assert_true("a band without response is refused", env.raises(KeyError, ray.get_reflectance, *ang, "ch1"))
    wl = env.real("wl", 0.41, 0.79)
    env.assert_close("a wavelength needs no response", ray.get_reflectance(*ang, wl),
                     [at(env, vals, [400.0, 800.0], wl * 1000.0)], rtol=1e-6)


def monotone(env):
    """Between two table wavelengths the reflectance stays between their reflectances."""
    vals = _lut(env, [400.0, 500.0, 800.0])
    wl = env.real("wl", 0.5001, 0.7999)
    ray = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    got = env.flat(ray.get_reflectance(*[np.array([a]) for a in NODE], wl))[0]
    lo, hi = (vals[1], vals[2]) if env.fork(vals[1] <= vals[2]) else (vals[2], vals[1])
    env.assert_le("not below the lower", lo * 100.0, got, tol=1e-6)
    env.assert_le("not above the higher", got, hi * 100.0, tol=1e-6)


def two(env, form, by):
    """One correction for two bands: each gets its own part of the table."""
    vals = [[env.real("v%d.%d" % (i, j), 0.0, 1.0) for j in range(4)] for i in range(3)]
    # nodes that agree in a corner or two are not special
    corners = ((0, 0, 0), (0, 1, 0), (1, 0, 1), (1, 1, 1))
    flat = [vals[w][corners.index(c)] if c in corners else 0.3 for w in range(3) for c in np.ndindex(2, 2, 2)]
    wvls = [400.0, 560.0, 800.0]
    write_lut(env, env.array(flat).reshape((3, 2, 2, 2)), wvls, 2, 2, 2)
    ray = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    for k in ("a", "b"):
        wl = env.real(k, 0.41, 0.79) if by == "any" else env.choice(k, [0.4801, 0.5599, 0.68])
        node = env.choice(k + ".node", [0, 1])
        want = at(env, [v[node] for v in vals], wvls, wl * 1000.0)
        ang = [wrap(env, np.array([a]), form) for a in (0.0, 0.0, (180.0, 0.0)[node])]
        got = ray.get_reflectance(*ang, wl)
        env.assert_close("reflectance at the wavelength of call " + k, got, [want], rtol=1e-6, atol=1e-6)


def configs(tier):
    out = []
    for form in ("numpy", "dask"):
        for by in ("any", "some"):
            out.append(Cfg("two-%s-%s" % (form, by), two, dict(form=form, by=by), must_reach=["reflectance at the wavelength of call b"],
                           bounds="3 wavelengths, 2 calls"))
    for form in ("numpy", "dask"):
        out.append(Cfg("wavelength-%s-2" % form, by_wavelength, dict(form=form, wvls=(400.0, 800.0)),
                       must_reach=["reflectance at the wavelength"], bounds="2 wavelengths"))
        out.append(Cfg("wavelength-%s-4" % form, by_wavelength, dict(form=form, wvls=(400.0, 430.0, 555.0, 800.0)),
                       must_reach=["reflectance at the wavelength"], bounds="4 wavelengths"))
        out.append(Cfg("wavelength-%s-sym" % form, by_wavelength, dict(form=form, wvls=None),
                       must_reach=["reflectance at the wavelength"], bounds="3 arbitrary wavelengths"))
        for wide in (False, True):
            out.append(Cfg("band-%s-%s" % (form, "edge" if wide else "in"), by_band, dict(form=form, wide=wide),
                           must_reach=["reflectance at the effective wavelength"], budget=120, bounds="3-point response"))
    out.append(Cfg("band-large", by_band, dict(form="numpy", wide=False, respmin=0.5, respmax=300.0),
                   must_reach=["reflectance at the effective wavelength"], budget=120, bounds="3-point response of any scale"))
    out.append(Cfg("band-small", by_band, dict(form="numpy", wide=False, respmin=0.0, respmax=0.06),
                   must_reach=["reflectance at the effective wavelength"], budget=120, bounds="3-point response of any scale"))
    out.append(Cfg("wavelength-float32", by_wavelength, dict(form="numpy", wvls=(400.0, 555.0, 800.0), dt="float32"),
                   must_reach=["reflectance at the wavelength"], bounds="3 wavelengths"))
    for kind in ("int", "int64", "float32", "float64"):
        out.append(Cfg("number-" + kind, number_types, dict(kind=kind), must_reach=["reflectance at the wavelength"],
                       bounds="3 wavelengths"))
    for name, span in (("blue", (0.2, 0.46)), ("wide", (0.45, 1.6)), ("nir", (1.2, 2.4))):
        out.append(Cfg("band-" + name, by_band, dict(form="numpy", wide=False, span=span),
                       must_reach=["reflectance at the effective wavelength"], budget=120, bounds="3-point response"))
    out.append(Cfg("no-rsr", no_rsr, must_reach=["a band without response is refused"]))
    out.append(Cfg("between", monotone, must_reach=["not below the lower"]))
    if tier == "thorough":
        out.append(Cfg("band-5", by_band, dict(form="numpy", wide=False, n=5), must_reach=["reflectance at the effective wavelength"],
                       budget=600, bounds="5-point response"))
    return out
