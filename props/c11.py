"""C11: at high zenith angles the Rayleigh correction is reduced linearly."""
import numpy as np

from props.common import F64, Cfg, wrap

ASSUMPTIONS = ["zenith angles in [-10, 180] degrees or NaN, reflectances in [0, 100], thresholds in [0, 80] degrees and maximum angles "
               "1 degree or more above them up to 110 degrees, strengths in [-1, 3]; 1-2 pixels"]


def _params(env):
    t = env.real("thresh", 0.0, 80.0)
    m = env.real("maxzen", 1.0, 110.0)
    env.assume(t + 1.0 < m)
    return t, m, env.real("strength", -1.0, 3.0)


def factor(env, z, t, m, s):
    if env.isnan(z):
        return z
    if env.lt(z, t, exact=True):
        return 1.0
    f = 1.0 - s * (z - t) / (m - t)
    if env.lt(f, 0.0, exact=True):
        return 0.0
    if env.lt(1.0, f, exact=True):
        return 1.0
    return f


def reduced(env, form, dt, shape, fixed=False, nan=False):
    dt = np.dtype(dt)
    R = env.mod("rayleigh").Rayleigh
    t, m, s = (70.0, 105.0, 1.5) if fixed else _params(env)
    z = env.reals("z", shape, -10.0, 180.0, dt, nan=nan)
    r = env.reals("r", shape, 0.0, 100.0, dt, nan=nan)
    want = []
    for i in np.ndindex(*shape):
        f = factor(env, z[i], t, m, s)
        want.append(float("nan") if env.isnan(f) or env.isnan(r[i]) else r[i] * f)
    snap = env.snapshot(z, r)
    ch = (1,) * len(shape)
    got = R.reduce_rayleigh_highzenith(wrap(env, z, form, ch), wrap(env, r, form, ch), t, m, s)
    env.assert_true("dask stays lazy", hasattr(got, "compute") == (form == "dask"))
    env.assert_shape("one reflectance per pixel", got, shape)
    env.assert_close("reduced reflectance", got, want, rtol=1e-7 if dt == F64 else 1e-3, atol=1e-7 if dt == F64 else 1e-2)
    env.assert_unchanged("inputs are not modified", snap, [z, r])


def limits(env):
    """Full below the threshold, never negative, never more, and never increasing with the angle."""
    R = env.mod("rayleigh").Rayleigh
    t, m, s = _params(env)
    z = env.reals("z", 2, -10.0, 180.0)
    r = env.real("r", 0.0, 100.0)
    z0, z1 = env.flat(z)
    env.assume(z0 <= z1)
    a, b = env.flat(R.reduce_rayleigh_highzenith(z, env.array([r, r]), t, m, s))
    env.assert_le("not negative", 0.0, b)
    env.assert_le("not increased", a, r)
    env.assert_le("decreases with the angle", b, a)
    if env.fork(z0 < t):
        env.assert_close("full below the threshold", [a], [r])
    if env.fork(z1 >= m) and env.fork(s >= 1.0):
        env.assert_close("nothing beyond the maximum at full strength", [b], [0.0], atol=1e-9)
    if env.fork(s <= 0):
        env.assert_close("no strength, no reduction", [b], [r])


def scalar(env):
    R = env.mod("rayleigh").Rayleigh
    t, m, s = _params(env)
    z, r = env.real("z", -10.0, 180.0), env.real("r", 0.0, 100.0)
    want = factor(env, z, t, m, s) * r
    env.assert_close("reduced reflectance", R.reduce_rayleigh_highzenith(z, r, t, m, s), [want], rtol=1e-7, atol=1e-7)


def configs(tier):
    th = tier == "thorough"
    r = ["reduced reflectance"]
    out = []
    for form in ("numpy", "dask"):
        for dt in ("float64", "float32"):
            out.append(Cfg("pixel-%s-%s" % (form, dt), reduced, dict(form=form, dt=dt, shape=(1,), nan=True), must_reach=r,
                           budget=120, bounds="1 pixel"))
            out.append(Cfg("image-%s-%s" % (form, dt), reduced, dict(form=form, dt=dt, shape=(2, 1) if not th else (2, 2),
                                                                     fixed=True), must_reach=r, budget=120, bounds="2 pixels"))
        out.append(Cfg("pair-" + form, reduced, dict(form=form, dt="float64", shape=(2,)), must_reach=r, budget=120,
                       bounds="2 pixels"))
    out.append(Cfg("limits", limits, must_reach=["not negative", "full below the threshold", "decreases with the angle",
                                                 "nothing beyond the maximum at full strength"], budget=200, bounds="2 angles"))
    out.append(Cfg("scalar", scalar, must_reach=r, budget=60))
    return out
