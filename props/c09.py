"""C09: the Rayleigh reflectance is the interpolated table value."""
import numpy as np

from props.common import F64, Cfg, wrap
from props.raylib import clip, interpolate, write_lut

ASSUMPTIONS = ["tables of 2-3 nodes per angle and 2-4 wavelengths with arbitrary reflectances in [-0.1, 1.2] on the regular grid that "
               "the tables have; zenith angles in [-10, 120] degrees or NaN, azimuth differences in [0, 180] degrees or NaN; 1-2 "
               "pixels; angles within rounding error of a node are not decided"]


def table(env, nw, nsun, nazi, nsat, dt="float64"):
    return env.reals("lut", (nw, nsun, nazi, nsat), -0.1, 1.2, np.dtype(dt))


def value(env, form, dt, shape, n, nan=False, lutdt="float64", sunr=(-10.0, 120.0), satr=(-10.0, 120.0), wvls=(500.0, 600.0),
          wl=0.55, maxsec=(None, None), dts=None):
    dt = np.dtype(dt)
    dsat, daz = [np.dtype(d) for d in dts or (dt, dt)]
    nsun, nazi, nsat = n
    lut = table(env, len(wvls), nsun, nazi, nsat, lutdt)
    write_lut(env, lut, np.array(wvls), nsun, nazi, nsat, sunmax=maxsec[0], satmax=maxsec[1])
    ray = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    sun = env.reals("sun", shape, *sunr, dt, nan=nan)
    sat = env.reals("sat", shape, *satr, dsat, nan=nan)
    az = env.reals("az", shape, 0.0, 180.0, daz, nan=nan)
    k = [i for i in range(1, len(wvls)) if wvls[i] >= wl * 1000][0]
    f = (wvls[k] - wl * 1000) / (wvls[k] - wvls[k - 1])
    tab = f * lut[k - 1] + (1 - f) * lut[k]
    snap = env.snapshot(sun, sat, az)
    want = [clip(env, interpolate(env, tab, sun[i], sat[i], az[i], nsun, nazi, nsat, *maxsec)) for i in np.ndindex(*shape)]
    ch = None if len(shape) == 1 else (1,) * len(shape)
    got = ray.get_reflectance(wrap(env, sun, form, ch), wrap(env, sat, form, ch), wrap(env, az, form, ch), wl)
    env.assert_true("dask stays lazy, numpy is computed", hasattr(got, "compute") == (form == "dask"))
    env.assert_shape("one reflectance per pixel", got, shape)
    env.assert_dtype("dtype of the angles", got, dt)
    fine = dt == dsat == daz == F64
    env.assert_close("interpolated reflectance", got, want, rtol=1e-6 if fine else 2e-3, atol=1e-6 if fine else 2e-2)
    env.assert_unchanged("the angles are not modified", snap, [sun, sat, az])


def bounded(env, n):
    """Never outside 0-100 %."""
    nsun, nazi, nsat = n
    lut = env.reals("lut", (2, nsun, nazi, nsat), -1.0, 3.0)
    write_lut(env, lut, np.array([500.0, 600.0]), nsun, nazi, nsat)
    ray = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    sun, sat, az = env.reals("sun", 1, -10.0, 120.0), env.reals("sat", 1, -10.0, 120.0), env.reals("az", 1, 0.0, 180.0)
    got = env.flat(ray.get_reflectance(sun, sat, az, 0.55))
    env.assert_le("at least 0", 0.0, got[0])
    env.assert_le("at most 100", got[0], 100.0)


FIXED = np.array([[[[.05, .31], [.12, .2]], [[.22, .4], [.3, .18]]], [[[.02, .25], [.1, .17]], [[.2, .35], [.28, .15]]]])


def integers(env, form, which, dt):
    """Angles in whole degrees."""
    lut = FIXED
    write_lut(env, lut, np.array([500.0, 600.0]), 2, 2, 2)
    ray = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    dt = np.dtype(dt)
    val = [env.int(n, 0, hi) if which in (n, "all") else env.real(n, 0.0, float(hi)) for n, hi in (("sun", 89), ("sat", 89), ("az", 180))]
    arr = [env.array([v], dt if which in (n, "all") else F64) for n, v in zip(("sun", "sat", "az"), val)]
    want = clip(env, interpolate(env, 0.5 * lut[0] + 0.5 * lut[1], *[v * 1.0 for v in val], 2, 2, 2))
    got = ray.get_reflectance(*[wrap(env, a, form) for a in arr], 0.55)
    env.assert_true("dask stays lazy, numpy is computed", hasattr(got, "compute") == (form == "dask"))
    env.assert_close("interpolated reflectance", got, [want], rtol=2e-3, atol=2e-2)


def outside(env, form, dt, shape, red):
    """Outside the wavelengths of the table there is no correction."""
    dt = np.dtype(dt)
    wl = env.real("wl", 0.3, 2.5)
    inside = env.lt(0.4, wl, exact=True) and env.lt(wl, 0.8, exact=True)
    env.assume(not inside)
    lut = np.full((2, 2, 2, 2), 0.5)
    write_lut(env, lut, np.array([400.0, 800.0]), 2, 2, 2)
    ray = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    sun = env.reals("sun", shape, 0.0, 80.0, dt)
    sat = env.reals("sat", shape, 0.0, 80.0, dt)
    az = env.reals("az", shape, 0.0, 180.0, dt)
    kw = {}
    if red:
        kw["redband"] = wrap(env, env.reals("red", shape, 0.0, 120.0, dt), form)
    got = ray.get_reflectance(wrap(env, sun, form), wrap(env, sat, form), wrap(env, az, form), wl, **kw)
    env.assert_true("dask stays lazy, numpy is computed", hasattr(got, "compute") == (form == "dask"))
    env.assert_shape("one reflectance per pixel", got, shape)
    env.assert_dtype("dtype of the angles", got, dt)
    env.assert_close("no correction outside the table", got, [0.0] * int(np.prod(shape)))


def configs(tier):
    th = tier == "thorough"
    out = []
    r = ["interpolated reflectance"]
    for form in ("numpy", "dask"):
        for dt in ("float64", "float32"):
            out.append(Cfg("value-%s-%s" % (form, dt), value, dict(form=form, dt=dt, shape=(1,), n=(2, 2, 2)), must_reach=r,
                           budget=200, bounds="1 pixel, 2x2x2 nodes"))
        out.append(Cfg("nan-" + form, value, dict(form=form, dt="float64", shape=(1,), n=(2, 2, 2), nan=True), must_reach=r,
                       budget=200, bounds="1 pixel, 2x2x2 nodes"))
        out.append(Cfg("image-" + form, value, dict(form=form, dt="float64", shape=(1, 2), n=(2, 2, 2), sunr=(0.0, 60.0),
                                                    satr=(0.0, 60.0)), must_reach=r, budget=200, bounds="1x2 pixels, 2x2x2 nodes"))
    for n in ((3, 2, 2), (2, 3, 2), (2, 2, 3), (2, 3, 3), (3, 3, 2), (3, 2, 3), (3, 3, 3)):
        out.append(Cfg("nodes-%d%d%d" % n, value, dict(form="numpy", dt="float64", shape=(1,), n=n, sunr=(0.0, 88.0),
                                                       satr=(0.0, 88.0)), must_reach=r, budget=200,
                       bounds="1 pixel, %dx%dx%d nodes" % n))
    out.append(Cfg("waves-1", value, dict(form="numpy", dt="float64", shape=(1,), n=(2, 2, 2), wvls=(400.0, 500.0, 640.0, 800.0),
                                          wl=0.64), must_reach=r, budget=200, bounds="4 wavelengths"))
    out.append(Cfg("waves-2", value, dict(form="dask", dt="float64", shape=(1,), n=(2, 2, 2), wvls=(400.0, 450.0, 700.0),
                                          wl=0.47), must_reach=r, budget=200, bounds="3 wavelengths"))
    out.append(Cfg("lut32", value, dict(form="numpy", dt="float64", shape=(1,), n=(2, 2, 2), lutdt="float32"), must_reach=r,
                   budget=200, bounds="table in float32"))
    for i, (dt, dts) in enumerate(((("float64"), ("float32", "float64")), (("float32"), ("float64", "float64")),
                                   (("float64"), ("float64", "float32")))):
        out.append(Cfg("mixed-%d" % i, value, dict(form="dask" if i == 1 else "numpy", dt=dt, shape=(1,), n=(2, 2, 2), dts=dts,
                                                   sunr=(0.0, 65.0), satr=(0.0, 60.0)), must_reach=r, budget=200,
                       bounds="angles of different dtypes"))
    for w, dt in (("all", "int64"), ("all", "int16"), ("sun", "uint8"), ("sat", "int16"), ("az", "int32")):
        for form in ("numpy", "dask"):
            out.append(Cfg("integers-%s-%s-%s" % (w, dt, form), integers, dict(form=form, which=w, dt=dt), must_reach=r, budget=200,
                           bounds="1 pixel in whole degrees"))
    out.append(Cfg("column", value, dict(form="numpy", dt="float64", shape=(2, 1), n=(2, 2, 2), sunr=(0.0, 60.0), satr=(0.0, 60.0)),
                   must_reach=r, budget=200, bounds="2x1 pixels"))
    out.append(Cfg("bounded", bounded, dict(n=(2, 2, 2)), must_reach=["at least 0", "at most 100"], budget=200,
                   bounds="1 pixel, arbitrary table"))
    for form in ("numpy", "dask"):
        for dt in ("float64", "float32"):
            for red in (False, True):
                out.append(Cfg("outside-%s-%s-%s" % (form, dt, red), outside, dict(form=form, dt=dt, shape=(1, 2), red=red),
                               must_reach=["no correction outside the table"], budget=100, bounds="1x2 pixels"))
    return out
