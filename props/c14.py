"""C14: the limb-cooling correction of infrared bands."""
import math

import numpy as np

from props.common import F64, Cfg, wrap

ASSUMPTIONS = ["brightness temperatures in [120, 380] K or NaN, satellite zenith angles in [-10, 120] degrees or NaN, images of 1-2 "
               "pixels, masks on the temperatures and the angles"]


def expected(env, t, z):
    """Brightness temperature after the correction."""
    if env.isnan(t):
        return float("nan")
    if env.isnan(z):
        return t
    if env.eq(z, 0.0):
        return t + env.exp(math.log(10.85) * (t - 210.0) / 110.0) - 1
    if env.gt(z, 0.0, exact=True) and env.lt(z, 90.0, exact=True):
        u = (t - 170.0) / 125.0
        return t + u * u * u * u * (env.exp(math.log(7.2) * z / 70.0) - 1)
    return t


def _corr(env):
    return env.mod("atm_correction_ir").AtmosphericalCorrection("Imaginary-1", "someinst")


def values(env, form, dt, shape, nan=False, zero=False, zform=None):
    dt = np.dtype(dt)
    t = env.reals("t", shape, 120.0, 380.0, dt, nan=nan and not form.startswith("masked"))
    z = env.reals("z", shape, -10.0, 120.0, dt, nan=nan)
    if zero:
        z = env.array([0.0] * int(np.prod(shape)), dt).reshape(shape) if env.bool("nadir") else z
    want = [expected(env, t[i], z[i]) for i in np.ndindex(*shape)]
    mask = np.zeros(shape, bool)
    if form in ("masked", "masked-view"):
        for k, i in enumerate(np.ndindex(*shape)):
            mask[i] = env.bool("m%d" % k)
        want = [np.ma.masked if mask[i] else w for w, i in zip(want, np.ndindex(*shape))]
        data = env.masked(t, mask)
    else:
        data = wrap(env, t, form, (1,) * len(shape))
    if form == "masked-view":
        zmask = np.zeros(shape, bool)
        for k, i in enumerate(np.ndindex(*shape)):
            zmask[i] = env.bool("zm%d" % k)
        want = [w if w is np.ma.masked else t[i] if zmask[i] else w for w, i in zip(want, np.ndindex(*shape))]
        zz = env.masked(z, zmask)
    elif form == "masked":
        zz = z
    else:
        zz = wrap(env, z, zform or form, (1,) * len(shape))
    snap = env.snapshot(*([t, z] if form != "masked-view" and form != "masked" else [data, z]))
    got = _corr(env).get_correction(zz, "M4", data)
    env.assert_true("dask stays lazy", hasattr(got, "compute") == (form == "dask" or zform == "dask"))
    env.assert_shape("one temperature per pixel", got, shape)
    env.assert_close("corrected temperature", got, want, rtol=1e-9 if dt == F64 else 1e-5)
    env.assert_unchanged("the data are not modified", snap, [t, z] if form not in ("masked", "masked-view") else [data, z])


def integers(env, form, zint):
    """Temperatures (and view angles) in whole numbers."""
    dt = np.dtype(env.choice("dt", ["int64", "int32", "int16"]))
    t = env.int("t", 120, 380)
    z = env.int("z", -10, 120) if zint else env.real("z", -10.0, 120.0)
    want = expected(env, t * 1.0, z * 1.0)
    data = env.array([t], dt).reshape((1, 1))
    zz = env.array([z], dt if zint else F64).reshape((1, 1))
    if form == "masked":
        data = env.masked(data, np.zeros((1, 1), bool))
    else:
        data, zz = wrap(env, data, form), wrap(env, zz, form)
    got = _corr(env).get_correction(zz, "M4", data)
    env.assert_shape("one temperature per pixel", got, (1, 1))
    env.assert_close("corrected temperature", got, [want], rtol=1e-9)


def increases(env, form):
    """The correction does not cool, and grows with the view angle."""
    t = env.real("t", 120.0, 380.0)
    z0, z1 = env.real("z0", 0.5, 89.9), env.real("z1", 0.5, 89.9)
    env.assume(z0 + 1e-3 < z1)
    data = env.array([t, t]).reshape((1, 2))
    zz = env.array([z0, z1]).reshape((1, 2))
    got = env.flat(_corr(env).get_correction(wrap(env, zz, form), "any", wrap(env, data, form)))
    env.assert_le("not colder than observed", t, got[0])
    env.assert_le("larger at larger angles", got[0], got[1])


def agree(env, shape):
    """dask (in any chunks) and masked numpy arrays give the same temperatures."""
    t, z = env.reals("t", shape, 120.0, 380.0), env.reals("z", shape, -10.0, 120.0)
    a = _corr(env).get_correction(z, "M4", env.masked(t, np.zeros(shape, bool)))
    b = _corr(env).get_correction(env.dask(z, (1,) * len(shape)), "other", env.dask(t, (1,) * len(shape)))
    c = _corr(env).get_correction(env.dask(z), "", env.dask(t))
    env.assert_close("chunked dask and numpy", b, env.flat(a))
    env.assert_close("one dask chunk and numpy", c, env.flat(a))


def refuse(env):
    a = env.mod("atm_correction_ir").AtmosphericalCorrection
    name = env.string("atm", 4, "us-x", 1)
    env.assert_true("other atmospheres are refused", env.raises(AttributeError, a, "Imaginary-1", "someinst", atmosphere=name))


def configs(tier):
    th = tier == "thorough"
    r = ["corrected temperature"]
    out = []
    for form in ("numpy", "masked", "masked-view", "dask"):
        for dt in ("float64", "float32"):
            out.append(Cfg("pixel-%s-%s" % (form, dt), values, dict(form=form, dt=dt, shape=(1, 1), nan=True, zero=True),
                           must_reach=r, budget=120, bounds="1 pixel"))
        for shape in ((1, 2), (2, 1)) + (((2, 2),) if th else ()):
            out.append(Cfg("image-%s-%dx%d" % ((form,) + shape), values, dict(form=form, dt="float64", shape=shape), must_reach=r,
                           budget=120 if not th else 900, bounds="%d pixels" % (shape[0] * shape[1])))
    out.append(Cfg("dask-view", values, dict(form="numpy", zform="dask", dt="float64", shape=(1, 2)), must_reach=r, budget=120,
                   bounds="2 pixels"))
    for form in ("numpy", "dask"):
        out.append(Cfg("increases-" + form, increases, dict(form=form), must_reach=["larger at larger angles"], bounds="2 pixels"))
    out.append(Cfg("agree", agree, dict(shape=(1, 2)), must_reach=["chunked dask and numpy"], bounds="2 pixels", budget=120))
    for form in ("numpy", "masked", "dask"):
        for zint in (False, True):
            out.append(Cfg("integers-%s-%s" % (form, zint), integers, dict(form=form, zint=zint), must_reach=r, budget=120,
                           bounds="1 pixel in whole kelvin"))
    out.append(Cfg("refuse", refuse, must_reach=["other atmospheres are refused"]))
    return out
