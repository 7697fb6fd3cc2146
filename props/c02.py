"""C02: Planck radiances are the values of Planck's law."""
import numpy as np

from props.common import C, F32, F64, H, K, Cfg, wrap

ASSUMPTIONS = ["wavelengths in [0.3, 20] micrometre and temperatures in [150, 400] K with hc/(lambda k T) < 320, or "
               "temperatures within 1e-6 K of zero; at most 2 x 3 (temperature x wave) points"]


def consts(env, bb):
    h, k, c = bb.H_PLANCK, bb.K_BOLTZMANN, bb.C_SPEED
    for name, got, want in (("h", h, H), ("k", k, K), ("c", c, C)):
        env.assert_true("physical constants", abs(got / want - 1) < 3e-5, name)
    return h, k, c


def planck_law(env, bb, w, t, space):
    h, k, c = consts(env, bb)
    if space == "wavelength":
        return 2 * h * c * c / (w * w * w * w * w) / (env.exp(h * c / (w * k * t)) - 1)
    return 2 * h * c * c * w * w * w / (env.exp(h * c * w / (k * t)) - 1)


def wave(env, name, space):
    return env.real(name, 3.0, 15.0) * 1e-6 if space == "wavelength" else env.real(name, 0.5, 4.0) * 1e5


def values(env, space, form, dt, nt, nw, via):
    """The (temperature x wave) table of Planck radiances, positive and finite."""
    bb = env.mod("blackbody")
    dt = np.dtype(dt)
    ws = [wave(env, "w%d" % i, space) for i in range(nw)]
    t = env.reals("t", nt, 150.0, 400.0, dt)
    warr = env.array(ws, dt) if nw > 1 else ws[0]
    fn = (bb.blackbody if space == "wavelength" else bb.blackbody_wn) if via == "blackbody" else \
        (lambda w, x: bb.planck(w, x, wavelength=space == "wavelength"))
    if form == "scalar":
        tt = env.real("t[0]", 150.0, 400.0)
        ts = [tt]
    else:
        tt = wrap(env, t, form, None if form != "dask" or nt == 1 else (1,))
        ts = env.flat(t)
    snap = env.snapshot(t)
    got = fn(warr, tt)
    env.assert_shape("one row per temperature, one column per wave", got, (len(ts), nw))
    want = [planck_law(env, bb, w, x, space) for x in ts for w in ws]
    env.assert_close("Planck's law", got, want, rtol=1e-9 if dt == F64 else 3e-4)
    for x in env.flat(got):
        env.assert_true("radiance is positive and finite", env.finite(x) and x > 0)
    env.assert_unchanged("the temperatures are not modified", snap, [t])


def grid(env, space, shape):
    """A 2-d temperature field is flattened to one row per pixel."""
    bb = env.mod("blackbody")
    w = wave(env, "w", space)
    t = env.reals("t", shape, 150.0, 400.0)
    fn = bb.blackbody if space == "wavelength" else bb.blackbody_wn
    got = fn(w, t)
    ts = env.flat(t)
    env.assert_shape("one row per temperature", got, (len(ts), 1))
    env.assert_close("Planck's law", got, [planck_law(env, bb, w, x, space) for x in ts])


def cold(env, space, form):
    """Temperatures at (or NaN) zero give no radiance, and do not disturb their neighbours."""
    bb = env.mod("blackbody")
    w = wave(env, "w", space)
    z = env.real("z", -1e-6, 1e-6, F64, nan=True)
    t = env.array([env.real("t0", 150.0, 400.0), z, env.real("t1", 150.0, 400.0)])
    fn = bb.blackbody if space == "wavelength" else bb.blackbody_wn
    got = env.flat(fn(w, wrap(env, t, form)))
    ts = env.flat(t)
    env.assert_true("three rows", len(got) == 3)
    env.assert_true("no radiance at zero temperature", env.isnan(got[1]))
    env.assert_close("Planck's law", [got[0], got[2]], [planck_law(env, bb, w, x, space) for x in (ts[0], ts[2])])


def monotone(env, space):
    bb = env.mod("blackbody")
    w = wave(env, "w", space)
    t = env.reals("t", 2, 150.0, 400.0)
    t0, t1 = env.flat(t)
    env.assume(t0 + 1e-6 < t1)
    fn = bb.blackbody if space == "wavelength" else bb.blackbody_wn
    a, b = env.flat(fn(w, t))
    env.assert_lt("warmer is brighter", a, b)


def spaces_agree(env, form):
    """B(lambda) dlambda = B(nu) dnu with nu = 1/lambda."""
    bb = env.mod("blackbody")
    w = wave(env, "w", "wavelength")
    t = env.reals("t", 2, 150.0, 400.0)
    a = env.flat(bb.blackbody(w, wrap(env, t, form)))
    b = env.flat(bb.blackbody_wn(1 / w, wrap(env, t, form)))
    env.assert_close("radiances per wavelength and per wavenumber agree", a, [x / (w * w) for x in b], rtol=1e-8)


def short(env, space, dt="float64", n=1):
    """Short waves: the exponent is large but does not overflow."""
    bb = env.mod("blackbody")
    dt = np.dtype(dt)
    t = env.reals("t", n, 150.0, 400.0, dt)
    w = env.real("w", 0.3, 3.0) * 1e-6 if space == "wavelength" else env.real("w", 4.0, 33.0) * 1e5
    fn = bb.blackbody if space == "wavelength" else bb.blackbody_wn
    got = fn(w, t)
    env.assert_close("Planck's law", got, [planck_law(env, bb, w, x, space) for x in env.flat(t)],
                     rtol=1e-7 if dt == F64 else 1e-3, atol=0.0 if dt == F64 else 1e-25)
    if n > 1:
        k = int(env.int("k", 0, n - 1))
        one = fn(w, t[k:k + 1])
        env.assert_close("a pixel does not depend on its neighbours", [env.flat(got)[k]], env.flat(one), rtol=1e-6, atol=1e-25)


def configs(tier):
    out = []
    for space in ("wavelength", "wavenumber"):
        for form in ("numpy", "dask", "scalar", "xarray"):
            for dt in ("float64", "float32"):
                if form in ("scalar", "xarray") and dt == "float32":
                    continue
                for nt, nw in ((1, 1), (2, 1), (1, 2), (2, 2)) + (((2, 3), (3, 2)) if tier == "thorough" else ()):
                    if form == "scalar" and nt > 1 or (form == "xarray" and nt + nw > 2 and tier == "quick"):
                        continue
                    if form == "xarray" and nw > 1:
                        continue
                    out.append(Cfg("val-%s-%s-%s-%d-%d" % (space, form, dt, nt, nw), values,
                                   dict(space=space, form=form, dt=dt, nt=nt, nw=nw,
                                        via="planck" if (nt, nw) == (2, 1) else "blackbody"),
                                   must_reach=["Planck's law"], bounds="%d temperatures, %d waves" % (nt, nw)))
        out.append(Cfg("grid-" + space, grid, dict(space=space, shape=(2, 2)), must_reach=["Planck's law"],
                       bounds="2x2 temperatures"))
        for form in ("numpy", "dask"):
            out.append(Cfg("cold-%s-%s" % (space, form), cold, dict(space=space, form=form),
                           must_reach=["no radiance at zero temperature"], bounds="3 temperatures, one within 1e-6 K of 0 or NaN"))
        out.append(Cfg("mono-" + space, monotone, dict(space=space), must_reach=["warmer is brighter"],
                       bounds="2 temperatures"))
        out.append(Cfg("short-" + space, short, dict(space=space), must_reach=["Planck's law"], bounds="1 temperature"))
        out.append(Cfg("short-2-" + space, short, dict(space=space, n=2), must_reach=["Planck's law"], bounds="2 temperatures"))
        out.append(Cfg("short-32-" + space, short, dict(space=space, n=2, dt="float32"), must_reach=["Planck's law"], bounds="2 temperatures"))
    for form in ("numpy", "dask"):
        out.append(Cfg("spaces-" + form, spaces_agree, dict(form=form),
                       must_reach=["radiances per wavelength and per wavenumber agree"], bounds="2 temperatures"))
    return out
