"""C19: bandwidth measures of a response."""
import numpy as np

from props.common import F32, F64, Cfg
from props.rsrlib import trapz

ASSUMPTIONS = ["responses of 1-5 points with arbitrary responses in [0, 1] and arbitrary increasing wavelengths in [0.3, 15] "
               "micrometre; energies within 1e-9 of the limit are not decided"]


def _resp(env, n, dt=F64, symw=True, positive=False, noise=False):
    if symw:
        ws = [env.real("w%d" % i, 0.3, 15.0, dt) for i in range(n)]
        for a, b in zip(ws[:-1], ws[1:]):
            env.assume(a < b)
    else:
        ws = [0.5 + 0.125 * i for i in range(n)]
    rs = [env.real("r%d" % i, -0.05 if noise else 0.01 if positive else 0.0, 1.0, dt) for i in range(n)]
    return ws, rs, env.array(ws, dt), env.array(rs, dt)


def fwhm(env, n, dt="float64"):
    dt = np.dtype(dt)
    ws, rs, w, r = _resp(env, n, dt)
    f = env.mod("utils").get_fullwidth_halfmax
    idx = [i for i in range(n) if env.ge(rs[i], 0.5, exact=True)]
    snap = env.snapshot(w, r)
    if len(idx) < 2:
        env.assert_true("a response without two points above half of the maximum is refused", env.raises((ValueError, IndexError), f, r, w))
    else:
        env.assert_close("from the first to the last response of at least one half", [f(r, w)], [ws[idx[-1]] - ws[idx[0]]],
                         rtol=1e-9 if dt == F64 else 1e-3, atol=1e-9 if dt == F64 else 1e-5)
    env.assert_unchanged("inputs are not modified", snap, [w, r])


def exact(env):
    """Limits reached exactly are inside on both sides."""
    ws = [env.real("w%d" % i, 0.3, 15.0) for i in range(4)]
    for a, b in zip(ws[:-1], ws[1:]):
        env.assume(a < b)
    scale = env.choice("scale", [1.0, 0.25, 2.0 ** -20])
    rs, p, lo, hi = env.choice("case", [((1, 1, 1, 1), 25, 0, 2), ((1, 2, 4, 1), 12.5, 0, 2), ((1, 1, 2, 4), 50, 2, 2),
                                        ((2, 1, 1, 4), 25, 0, 2), ((1, 3, 2, 2), 25, 1, 2), ((0, 2, 4, 2), 25, 1, 2),
                                        ((2, 2, 0, 4), 50, 1, 2), ((4, 0, 0, 4), 50, 0, 2)])
    got = env.mod("utils").get_bounds_integrated_energy(np.array(rs) * scale, env.array(ws), ener_perc_lim=p)
    env.assert_close("lower bound", [got[0]], [ws[lo]])
    env.assert_close("upper bound", [got[1]], [ws[hi]])


def bounds(env, n, lim, symw, noise=False):
    ws, rs, w, r = _resp(env, n, symw=symw, positive=not noise, noise=noise)
    kw, p = {}, 1.0
    if lim == "sym":
        p = env.real("p", 0.1, 49.0)
        kw["ener_perc_lim"] = p
    elif lim is not None:
        p = lim
        kw["ener_perc_lim"] = lim
    f = env.mod("utils").get_bounds_integrated_energy
    cum, acc = [], None
    for x in rs:
        acc = x if acc is None else acc + x
        cum.append(acc)
    tot = cum[-1]
    if noise:       # small negative responses: the largest running sum is the total
        for c in cum:
            env.assume(c > 0.01)
        for c in cum[:-1]:
            if env.lt(tot, c, gap=1e-9):
                tot = c
    lo = next(i for i in range(n) if env.ge(cum[i] * 100.0, p * tot, gap=1e-9))
    his = [i for i in range(n) if env.le(cum[i] * 100.0, (100.0 - p) * tot, gap=1e-9)]
    snap = env.snapshot(w, r)
    if not his:
        env.assert_true("a response with everything in its first point is refused", env.raises((ValueError, IndexError), f, r, w, **kw))
    else:
        got = f(r, w, **kw)
        env.assert_close("lower bound", [got[0]], [ws[lo]])
        env.assert_close("upper bound", [got[1]], [ws[his[-1]]])
    env.assert_unchanged("inputs are not modified", snap, [w, r])


def wrange(env, n, thr, symw):
    ws, rs, w, r = _resp(env, n, symw=symw)
    kw, t = {}, 0.15
    if thr == "sym":
        t = env.real("t", 0.0, 0.9)
        kw["threshold"] = t
    elif thr is not None:
        t = thr
        kw["threshold"] = thr
    idx = [i for i in range(n) if env.gt(rs[i], t, exact=True)]
    f = env.mod("utils").get_wave_range
    chan = {"wavelength": w, "response": r}
    s = rs[0]
    for x in rs[1:]:
        s = s + x
    env.assume(s > 0.02)
    if not idx:
        env.assert_true("a response below the threshold is refused", env.raises((ValueError, IndexError), f, chan, **kw))
        return
    got = f(chan, **kw)
    env.assert_true("minimum, centre and maximum", len(got) == 3)
    env.assert_close("first wavelength above the threshold", [got[0]], [ws[idx[0]]])
    env.assert_close("last wavelength above the threshold", [got[2]], [ws[idx[-1]]])
    env.assert_close("central wavelength", [got[1] * trapz(rs, ws)], [trapz([a * b for a, b in zip(rs, ws)], ws)], rtol=1e-8)


def configs(tier):
    out = []
    for n in (1, 2, 3, 4):
        out.append(Cfg("fwhm-%d" % n, fwhm, dict(n=n), must_reach=["a response without two points above half of the maximum is refused"],
                       bounds="%d points" % n))
    out.append(Cfg("fwhm-float32", fwhm, dict(n=3, dt="float32"), must_reach=["from the first to the last response of at least one half"]))
    for n, lim, symw in ((3, None, True), (3, "sym", False), (4, 10.0, False), (2, "sym", True), (1, None, True)):
        out.append(Cfg("bounds-%d-%s" % (n, lim), bounds, dict(n=n, lim=lim, symw=symw),
                       must_reach=["lower bound"] if n > 1 else ["a response with everything in its first point is refused"],
                       bounds="%d points" % n, budget=120))
    out.append(Cfg("bounds-noise", bounds, dict(n=3, lim="sym", symw=False, noise=True), must_reach=["lower bound"], bounds="3 points, "
                   "responses in [-0.05, 1]", budget=120))
    out.append(Cfg("bounds-exact", exact, must_reach=["lower bound"], bounds="4 points"))
    for n, thr, symw in ((2, None, True), (3, None, True), (3, "sym", False), (4, 0.5, False), (5, None, False)):
        out.append(Cfg("range-%d-%s" % (n, thr), wrange, dict(n=n, thr=thr, symw=symw),
                       must_reach=["first wavelength above the threshold"], bounds="%d points" % n, budget=120))
    if tier == "thorough":
        out.append(Cfg("fwhm-6", fwhm, dict(n=6), must_reach=["from the first to the last response of at least one half"], budget=600))
        out.append(Cfg("bounds-5", bounds, dict(n=5, lim="sym", symw=False), must_reach=["lower bound"], budget=600))
        out.append(Cfg("range-6", wrange, dict(n=6, thr="sym", symw=False), must_reach=["first wavelength above the threshold"], budget=600))
    return out
