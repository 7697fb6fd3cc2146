"""C07: the emissive part of the near-infrared band."""
import numpy as np

from props.c02 import consts
from props.common import F64, Cfg, wrap
from props.nirlib import CW, INTEGRAL, NTAB, R, R2, START, W, calculator, reflectance, table_radiance

ASSUMPTIONS = ["brightness temperatures in [200, 360] K or NaN, solar zenith angles in [-20, 120] degrees or NaN, solar flux in "
               "[1, 5] W/m2, 1-2 pixels, a look-up table of 1600 arbitrary positive radiances; brightness temperatures of the "
               "emissive part are decided where the emitted radiance is positive"]
LO, HI = START + 0.05, START + 159.9


def inverse(env, rad, wl):
    bb = env.mod("blackbody")
    h, k, c = consts(env, bb)
    return (h * c / (k * wl)) / env.log(2 * h * c * c / (wl * wl * wl * wl * wl) / rad + 1)


def emissive(env, form, dt, shape, co2, nan=True, tb=False, calls=1, zlo=-20.0, zhi=120.0):
    dt = np.dtype(dt)
    calc, lut, flux = calculator(env)
    for c in range(calls):
        s = "" if c == calls - 1 else "first."
        nir = env.reals(s + "nir", shape, LO, HI, dt, nan=nan)
        th = env.reals(s + "th", shape, LO, HI, dt, nan=nan)
        sz = env.reals(s + "sz", shape, zlo, zhi, dt, nan=nan)
        kw = {}
        co = None
        if co2:
            co = env.reals(s + "co", shape, 180.0, 300.0, dt)
            kw["tb_ir_co2"] = wrap(env, co, form)
        calc.reflectance_from_tbs(wrap(env, sz, form), wrap(env, nir, form), wrap(env, th, form), lut=lut, **kw)
        if s:
            calc.emissive_part_3x(tb=tb)
    want = []
    for i in np.ndindex(*shape):
        rn, rt = table_radiance(env, lut, nir[i], dt), table_radiance(env, lut, th[i], dt)
        corr = 1.0
        if co2 and not env.isnan(th[i]):
            u = (0.75 * th[i] + 0.25 * co[i]) / th[i]
            corr = u * u * u * u
        r = reflectance(env, rn, rt, sz[i], flux, corr, integral=float(dt.type(INTEGRAL)))
        want.append(rn if env.isnan(r) else rt * (1 - r))
    if tb:
        got = env.flat(calc.emissive_part_3x())
        env.assert_true("one temperature per pixel", len(got) == len(want))
        for g, w in zip(got, want):
            if env.isnan(w):
                env.assert_true("no temperature without radiance", env.isnan(g))
            elif env.gt(w, 1e-3 if dt == F64 else 1e3, exact=True):
                env.assert_close("brightness temperature of the emissive part", [g], [inverse(env, w, CW * 1e-6)], rtol=1e-7)
    else:
        got = calc.emissive_part_3x(tb=False)
        env.assert_shape("one value per pixel", got, shape)
        env.assert_close("emitted radiance", got, want, rtol=1e-6 if dt == F64 else 5e-2, atol=1e-3 if dt == F64 else 1e3)
        env.assert_close("asking again gives the same", calc.emissive_part_3x(tb=False), env.flat(got))


def night(env, form, shape):
    """On the night side the emissive part is the observed near-infrared radiance (and its temperature)."""
    calc, lut, flux = calculator(env)
    nir = env.reals("nir", shape, LO, HI)
    th = env.reals("th", shape, LO, HI)
    sz = env.reals("sz", shape, 85.01, 180.0)
    calc.reflectance_from_tbs(wrap(env, sz, form), wrap(env, nir, form), wrap(env, th, form), lut=lut)
    want = [table_radiance(env, lut, x) for x in env.flat(nir)]
    env.assert_close("night: observed radiance", calc.emissive_part_3x(tb=False), want)
    got = env.flat(calc.emissive_part_3x(tb=True))
    for g, w in zip(got, want):
        if env.gt(w, 1.0, exact=True):
            env.assert_close("night: observed temperature", [g], [inverse(env, w, CW * 1e-6)], rtol=1e-7)


def detector(env, form):
    """The second detector has its own central wavelength."""
    c1, c2 = env.real("c1", 3.6, 3.9), env.real("c2", 3.6, 3.9)
    dets = {"det-1": {"wavelength": np.array(W), "response": np.array(R), "central_wavelength": c1},
            "det-2": {"wavelength": np.array(W), "response": np.array(R2), "central_wavelength": c2}}
    env.write_rsr("Imaginary-1", "someinst", {"ch20": dets})
    tab = env.table("rad", NTAB, 0.0, 5.0e6)
    lut = {"tb": START + 0.1 * np.arange(NTAB), "radiance": tab}
    det = env.choice("det", ["det-1", "det-2"])
    calc = env.mod("near_infrared_reflectance").Calculator("Imaginary-1", "someinst", "ch20", detector=det, solar_flux=2.0)
    nir = env.reals("nir", 1, LO, HI)
    calc.reflectance_from_tbs(wrap(env, np.array([100.0]), form), wrap(env, nir, form), wrap(env, np.array([290.03]), form), lut=lut)
    want = table_radiance(env, lut, nir[0])
    got = env.flat(calc.emissive_part_3x(tb=True))
    if env.gt(want, 1.0, exact=True):
        env.assert_close("temperature at the detector's central wavelength", got, [inverse(env, want, (c1 if det == "det-1" else c2) * 1e-6)], rtol=1e-7)


def conserve(env, form):
    """By day: the reflected and the emitted parts add up to the observed radiance."""
    calc, lut, flux = calculator(env)
    nir = env.reals("nir", 1, LO, HI)
    th = env.reals("th", 1, LO, HI)
    sz = env.reals("sz", 1, 0.0, 84.9)
    r = env.flat(calc.reflectance_from_tbs(wrap(env, sz, form), wrap(env, nir, form), wrap(env, th, form), lut=lut))[0]
    e = env.flat(calc.emissive_part_3x(tb=False))[0]
    rn = table_radiance(env, lut, nir[0])
    if env.isnan(r):
        env.assert_close("no reflectance: all is emitted", [e], [rn])
        return
    import math
    solar = flux * env.cos(sz[0] * (math.pi / 180)) / math.pi
    env.assert_close("reflected and emitted parts add up", [r * solar / INTEGRAL + e], [rn], rtol=1e-6, atol=1e-2)


def configs(tier):
    th = tier == "thorough"
    out = []
    r = ["emitted radiance"]
    for form in ("numpy", "dask", "xarray"):
        for co2 in (False, True):
            if form == "xarray" and co2 and not th:
                continue
            out.append(Cfg("rad-%s-%s" % (form, "co2" if co2 else "plain"), emissive,
                           dict(form=form, dt="float64", shape=(1,), co2=co2), must_reach=r, budget=200, bounds="1 pixel"))
        out.append(Cfg("tb-%s" % form, emissive, dict(form=form, dt="float64", shape=(1,), co2=False, tb=True),
                       must_reach=["brightness temperature of the emissive part"], budget=200, bounds="1 pixel"))
        out.append(Cfg("night-%s" % form, night, dict(form=form, shape=(1, 2) if form != "xarray" else (1,)),
                       must_reach=["night: observed temperature"], budget=150, bounds="1-2 pixels"))
    out.append(Cfg("rad-float32", emissive, dict(form="numpy", dt="float32", shape=(1,), co2=False), must_reach=r, budget=200,
                   bounds="1 pixel"))
    out.append(Cfg("rad-image", emissive, dict(form="numpy", dt="float64", shape=(1, 2), co2=False, nan=False, zlo=0.0),
                   must_reach=r, budget=200, bounds="1x2 pixels"))
    out.append(Cfg("rad-second", emissive, dict(form="numpy", dt="float64", shape=(1,), co2=False, nan=False, zlo=0.0, zhi=90.0,
                                                calls=2), must_reach=r, budget=200, bounds="two calls of 1 pixel"))
    for form in ("numpy", "dask"):
        out.append(Cfg("detector-" + form, detector, dict(form=form), must_reach=["temperature at the detector's central wavelength"], budget=100, bounds="1 pixel"))
        out.append(Cfg("conserve-" + form, conserve, dict(form=form), must_reach=["reflected and emitted parts add up"], budget=200,
                       bounds="1 pixel"))
    return out
