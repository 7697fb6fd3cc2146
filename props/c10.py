"""C10: over clouds the Rayleigh correction is relaxed with the red reflectance."""
import numpy as np

from props.common import F64, Cfg, wrap
from props.raylib import clip, interpolate, relax, write_lut

ASSUMPTIONS = ["red reflectances in [-10, 150] % or NaN, tables of 2x2x2 angles and 2 wavelengths, 1-2 pixels; "
               "the reflectance of the table is arbitrary in [0, 1.2] for fixed angles, or fixed for arbitrary angles"]
LUT = np.array([[[[.05, .31], [.12, .2]], [[.22, .4], [.3, .18]]], [[[.02, .25], [.1, .17]], [[.2, .35], [.28, .15]]]])


def _ray(env, lut):
    write_lut(env, lut, np.array([500.0, 600.0]), 2, 2, 2)
    return env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")


def relaxed(env, form, dt, shape, nan=False, angles=False, redform=None):
    dt = np.dtype(dt)
    lut = LUT if angles else env.reals("lut", (2, 2, 2, 2), 0.0, 1.2)
    ray = _ray(env, lut)
    if angles:
        sun, sat, az = env.reals("sun", shape, 0.0, 89.0, dt), env.reals("sat", shape, 0.0, 89.0, dt), \
            env.reals("az", shape, 0.0, 180.0, dt)
    else:
        sun, sat, az = (np.full(shape, v, dtype=dt) for v in (40.0, 25.0, 70.0))
    red = env.reals("red", shape, -10.0, 150.0, dt, nan=nan)
    tab = 0.5 * lut[0] + 0.5 * lut[1]
    want = []
    for i in np.ndindex(*shape):
        r = interpolate(env, tab, sun[i], sat[i], az[i], 2, 2, 2)
        want.append(clip(env, relax(env, r, red[i])))
    snap = env.snapshot(red)
    ch = (1,) * len(shape)
    got = ray.get_reflectance(wrap(env, sun, form, ch), wrap(env, sat, form, ch), wrap(env, az, form, ch), 0.55,
                              wrap(env, red, redform or form, ch))
    env.assert_true("dask stays lazy, numpy is computed", hasattr(got, "compute") == (form == "dask"))
    env.assert_shape("one reflectance per pixel", got, shape)
    env.assert_dtype("dtype of the red band", got, dt)
    env.assert_close("relaxed reflectance", got, want, rtol=1e-6 if dt == F64 else 2e-3, atol=1e-6 if dt == F64 else 2e-2)
    env.assert_unchanged("the red band is not modified", snap, [red])


def dtypes(env, form, dang, dred):
    """Angles and red reflectances of different types, and whole percentages."""
    lut = env.reals("lut", (2, 2, 2, 2), 0.0, 1.2)
    ray = _ray(env, lut)
    dang, dred = np.dtype(dang), np.dtype(dred)
    sun, sat, az = (np.full(1, v, dtype=dang) for v in (40, 25, 70))
    red = env.array([env.int("red", 0, 120)], dred) if dred.kind in "iu" else env.reals("red", 1, -10.0, 150.0, dred)
    r = interpolate(env, 0.5 * lut[0] + 0.5 * lut[1], 40.0, 25.0, 70.0, 2, 2, 2)
    want = clip(env, relax(env, r, red[0] * 1.0))
    got = ray.get_reflectance(*[wrap(env, a, form) for a in (sun, sat, az)], 0.55, wrap(env, red, form))
    env.assert_true("dask stays lazy, numpy is computed", hasattr(got, "compute") == (form == "dask"))
    env.assert_close("relaxed reflectance", got, [want], rtol=2e-3, atol=2e-2)


def outside(env, form, side, nan=True, red2=False):
    """A band outside the table needs no correction, however bright the scene; where there is no scene there is no value."""
    ray = _ray(env, env.reals("lut", (2, 2, 2, 2), 0.0, 1.2))
    wl = env.real("wl", 0.3, 0.499) if side == "below" else env.real("wl", 0.601, 4.0)
    shape = (2, 1) if red2 else (2,)
    ang = [np.full(shape, v) for v in (40.0, 25.0, 70.0)]
    red = env.reals("red", shape, -10.0, 150.0, nan=nan)
    want = [red[i] if env.isnan(red[i]) else 0.0 for i in np.ndindex(*shape)]
    snap = env.snapshot(red)
    got = ray.get_reflectance(*[wrap(env, a, form) for a in ang], wl, wrap(env, red, form))
    env.assert_true("dask stays lazy, numpy is computed", hasattr(got, "compute") == (form == "dask"))
    env.assert_shape("one reflectance per pixel", got, shape)
    env.assert_close("no correction outside the table", got, want, atol=1e-12)
    env.assert_unchanged("the red band is not modified", snap, [red])


def bounds(env):
    """Between nothing and the clear-sky correction; less where the scene is brighter."""
    lut = env.reals("lut", (2, 2, 2, 2), 0.0, 1.0)
    ray = _ray(env, lut)
    ang = [np.full(2, v) for v in (40.0, 25.0, 70.0)]
    red = env.reals("red", 2, -10.0, 150.0)
    clear = env.flat(ray.get_reflectance(*ang, 0.55))
    got = env.flat(ray.get_reflectance(*ang, 0.55, red))
    for c, g in zip(clear, got):
        env.assert_le("not negative", 0.0, g)
        env.assert_le("not more than the clear-sky correction", g, c)
    r0, r1 = env.flat(red)
    if env.fork(r0 < r1):
        env.assert_le("brighter scenes are corrected less", got[1], got[0])
    else:
        env.assert_le("brighter scenes are corrected less", got[0], got[1])
    for c, g, r in zip(clear, got, (r0, r1)):
        if env.fork(r < 20.0):
            env.assert_close("dark scenes get the full correction", [g], [c], rtol=1e-9, atol=1e-9)
        elif env.fork(r >= 100.0):
            env.assert_close("white scenes get none", [g], [0.0], atol=1e-9)


def configs(tier):
    out = []
    r = ["relaxed reflectance"]
    for form in ("numpy", "dask"):
        for dt in ("float64", "float32"):
            out.append(Cfg("lut-%s-%s" % (form, dt), relaxed, dict(form=form, dt=dt, shape=(1,)), must_reach=r, budget=150,
                           bounds="1 pixel, arbitrary table"))
        out.append(Cfg("angles-%s" % form, relaxed, dict(form=form, dt="float64", shape=(1,), angles=True, nan=True), must_reach=r,
                       budget=150, bounds="1 pixel, arbitrary angles"))
        out.append(Cfg("image-%s" % form, relaxed, dict(form=form, dt="float64", shape=(1, 2)), must_reach=r, budget=150,
                       bounds="1x2 pixels"))
        out.append(Cfg("nan-%s" % form, relaxed, dict(form=form, dt="float64", shape=(2,), nan=True), must_reach=r, budget=150,
                       bounds="2 pixels"))
    for dang, dred in (("float64", "int64"), ("float64", "uint8"), ("float32", "int16"), ("int64", "int64"), ("int16", "float64"),
                       ("float64", "float32"), ("float32", "float64")):
        for form in ("numpy", "dask"):
            out.append(Cfg("types-%s-%s-%s" % (dang, dred, form), dtypes, dict(form=form, dang=dang, dred=dred), must_reach=r,
                           budget=150, bounds="1 pixel, arbitrary table"))
    for form in ("numpy", "dask"):
        for side in ("below", "above"):
            out.append(Cfg("outside-%s-%s" % (form, side), outside, dict(form=form, side=side, red2=side == "above"),
                           must_reach=["no correction outside the table"], budget=100, bounds="2 pixels"))
    out.append(Cfg("bounds", bounds, must_reach=["not more than the clear-sky correction", "brighter scenes are corrected less",
                                                 "dark scenes get the full correction", "white scenes get none"], budget=200,
                   bounds="2 pixels, arbitrary table"))
    return out
