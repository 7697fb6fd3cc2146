"""C01: Planck's law and its inverse undo each other."""
import numpy as np

from props.common import F32, F64, Cfg, wrap

ASSUMPTIONS = ["wavelengths in [3, 15] micrometre, temperatures in [150, 400] K (exp does not overflow), arrays of at most "
               "3 temperatures (each element is treated alike by the elementwise code)"]


def roundtrip(env, space, form, dt, n, wform):
    bb = env.mod("blackbody")
    dt = np.dtype(dt)
    if space == "wavelength":
        w = env.real("w", 3.0, 15.0) * 1e-6
        fwd, inv = bb.blackbody, bb.blackbody_rad2temp
    else:
        w = env.real("w", 0.5, 4.0) * 1e5
        fwd, inv = bb.blackbody_wn, bb.blackbody_wn_rad2temp
    if wform == "np":
        w = env.array([w], dt)[0]
    t = env.reals("t", n, 150.0, 400.0, dt)
    if form == "scalar":
        t0 = env.real("t0", 150.0, 400.0)
        rad = fwd(w, t0)
        back = inv(w, rad)
        env.assert_close("Tb of the radiance of T is T", back, [t0], rtol=1e-6)
        return
    tt = wrap(env, t, form)
    rad = fwd(w, tt)
    back = inv(w, rad)
    env.assert_close("Tb of the radiance of T is T", back, env.flat(t), rtol=1e-6 if dt == F64 else 2e-4)


def inverse_roundtrip(env, space, form, dt, n, shape=None):
    """radiance -> Tb -> radiance."""
    bb = env.mod("blackbody")
    dt = np.dtype(dt)
    if space == "wavelength":
        w = env.real("w", 3.0, 15.0) * 1e-6
        rad = env.reals("r", n, 0.01, 20.0, dt) * dt.type(1e6)
        fwd, inv = bb.blackbody, bb.blackbody_rad2temp
    else:
        w = env.real("w", 0.5, 4.0) * 1e5
        rad = env.reals("r", n, 0.01, 300.0, dt) * dt.type(1e-5)
        fwd, inv = bb.blackbody_wn, bb.blackbody_wn_rad2temp
    snap = env.snapshot(rad)
    if shape is not None:
        snap = env.snapshot(rad.reshape(shape))
        rad = rad.reshape(shape)
    tb = inv(w, wrap(env, rad, form, None if shape is None else (1,) * len(shape)))
    if dt == F64 or form == "numpy" or space == "wavelength":
        env.assert_dtype("Tb has the precision of the radiance", tb, dt)
    if form != "numpy":
        env.assert_true("Tb of lazy radiances is lazy", hasattr(tb, "compute"))
    tol = 1e-6 if dt == F64 else 2e-4
    for a in env.flat(tb):
        env.assert_true("Tb is a positive number", env.finite(a) and a > 0)
    back = fwd(w, tb)
    env.assert_close("radiance of its Tb is the radiance", back, env.flat(rad), rtol=tol)
    env.assert_shape("Tb keeps the shape of the radiance", tb, shape or (n,))
    env.assert_unchanged("the radiances are not modified", snap, [rad])


def inverse_waves(env, space, dt):
    """A wave for each radiance."""
    bb = env.mod("blackbody")
    dt = np.dtype(dt)
    wl = space == "wavelength"
    inv = bb.blackbody_rad2temp if wl else bb.blackbody_wn_rad2temp
    fwd = bb.blackbody if wl else bb.blackbody_wn
    w = env.reals("w", 2, 3.0, 15.0) * 1e-6 if wl else env.reals("w", 2, 0.5, 4.0) * 1e5
    rad = env.reals("r", 2, 0.01, 20.0, dt) * dt.type(1e6 if wl else 1e-5)
    snap = env.snapshot(w, rad)
    tb = inv(w, rad)
    tol = 1e-6 if dt == F64 else 2e-4
    for k, (a, b) in enumerate(zip(env.flat(tb), env.flat(rad))):
        back = env.flat(fwd(env.flat(w)[k], env.array([a])))[0]
        env.assert_close("radiance of its Tb is the radiance", [back], [b], rtol=tol)
    env.assert_unchanged("the inputs are not modified", snap, [w, rad])


def inverse_forms(env, space):
    """Radiances as plain numbers, numpy scalars, integers, and given by keyword."""
    bb = env.mod("blackbody")
    wl = space == "wavelength"
    w = env.real("w", 3.0, 15.0) * 1e-6 if wl else env.real("w", 0.5, 4.0) * 1e5
    inv, fwd = (bb.blackbody_rad2temp, bb.blackbody) if wl else (bb.blackbody_wn_rad2temp, bb.blackbody_wn)
    x = env.real("r", 0.01, 20.0) * (1e6 if wl else 1e-5)
    kind = env.choice("kind", ["plain", "int", "ints", "keyword", "keyword-dask"])
    kw = {"wavelength" if wl else "wavenumber": w}
    if kind == "plain":
        tb, want = inv(w, x), [x]
    elif kind in ("int", "ints"):
        if not wl:                      # radiances per wavenumber are far below one
            return
        n = env.choice("n", [1, 20000, 9573177])
        arg = n if kind == "int" else np.array([n, 2 * n])
        tb, want = inv(w, arg), [n] if kind == "int" else [n, 2 * n]
    elif kind == "keyword":
        tb, want = inv(radiance=env.array([x]), **kw), [x]
    else:
        tb, want = inv(radiance=env.dask(env.array([x, 2 * x]), (1,)), **kw), [x, 2 * x]
        env.assert_true("Tb of lazy radiances is lazy", hasattr(tb, "compute"))
    flat = env.flat(tb) if kind not in ("plain", "int") else [tb]
    env.assert_equal("one Tb per radiance", len(flat), len(want))
    for t, r in zip(flat, want):
        env.assert_true("Tb is a positive number", env.finite(t) and t > 0)
        env.assert_close("radiance of its Tb is the radiance", fwd(w, env.array([t])), [r], rtol=1e-6)


def inverse_monotone(env, space):
    """More radiance is warmer."""
    bb = env.mod("blackbody")
    if space == "wavelength":
        w = env.real("w", 3.0, 15.0) * 1e-6
        rad = env.reals("r", 2, 0.01, 20.0) * 1e6
        inv = bb.blackbody_rad2temp
    else:
        w = env.real("w", 0.5, 4.0) * 1e5
        rad = env.reals("r", 2, 0.01, 300.0) * 1e-5
        inv = bb.blackbody_wn_rad2temp
    tb = env.flat(inv(w, rad))
    r = env.flat(rad)
    env.assume(r[0] * (1 + 1e-9) < r[1])
    env.assert_lt("more radiance is warmer", tb[0], tb[1])


def configs(tier):
    out = []
    forms = ["numpy", "dask", "xarray"]
    for space in ("wavelength", "wavenumber"):
        for form in forms:
            for dt in ("float64", "float32"):
                for wform in ("py", "np"):
                    if tier == "quick" and form == "xarray" and (wform == "np" or dt == "float32"):
                        continue
                    out.append(Cfg("rt-%s-%s-%s-%s" % (space, form, dt, wform), roundtrip,
                                   dict(space=space, form=form, dt=dt, n=2 if tier == "quick" else 3, wform=wform),
                                   must_reach=["Tb of the radiance of T is T"], bounds="2-3 temperatures"))
                out.append(Cfg("irt-%s-%s-%s" % (space, form, dt), inverse_roundtrip,
                               dict(space=space, form=form, dt=dt, n=2 if tier == "quick" else 3),
                               must_reach=["radiance of its Tb is the radiance"], bounds="2-3 radiances"))
            out.append(Cfg("irt-%s-%s-2d" % (space, form), inverse_roundtrip, dict(space=space, form=form, dt="float64", n=2, shape=(2, 1)),
                           must_reach=["radiance of its Tb is the radiance"], bounds="2x1 radiances"))
        out.append(Cfg("rt-%s-scalar" % space, roundtrip, dict(space=space, form="scalar", dt="float64", n=1, wform="py"),
                       must_reach=["Tb of the radiance of T is T"], bounds="a python scalar temperature"))
        for dt in ("float64", "float32"):
            out.append(Cfg("waves-%s-%s" % (space, dt), inverse_waves, dict(space=space, dt=dt),
                           must_reach=["radiance of its Tb is the radiance"], bounds="2 waves with a radiance each"))
        out.append(Cfg("forms-%s" % space, inverse_forms, dict(space=space), must_reach=["radiance of its Tb is the radiance"],
                       bounds="1-2 radiances"))
        out.append(Cfg("mono-%s" % space, inverse_monotone, dict(space=space), must_reach=["more radiance is warmer"],
                       bounds="2 radiances"))
    return out
