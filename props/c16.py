"""C16: central wavelengths and response integrals."""
import numpy as np

from props.common import F32, F64, Cfg
from props.rsrlib import sym_det, trapz

ASSUMPTIONS = ["responses of 2-5 points with arbitrary increasing wavelengths (or wavenumbers) and arbitrary responses in [0, 1] (also [0, 1e-4] and [0, 1e4]), "
               "weights given as numbers or arrays, 1-11 detectors"]


def _grid(env, n, lo, hi, dt=F64, order=1, rmax=1.0, rmin=0.0):
    ws = [env.real("w%d" % i, lo, hi, dt) for i in range(n)]
    for a, b in zip(ws[:-1], ws[1:]):
        env.assume(a + (hi - lo) * 0.01 < b)
    rs = [env.real("r%d" % i, rmin, rmax, dt) for i in range(n)]
    s = rs[0]
    for r in rs[1:]:
        s = s + r
    env.assume(s > 0.05 * rmax)
    if rmin < 0:
        env.assume(trapz(rs, ws) > 0.05 * rmax * (hi - lo))
    return ws[::order], rs[::order]


def centre(env, n, lo, hi, weight, dt="float64", order=1, rmax=1.0, rmin=0.0):
    dt = np.dtype(dt)
    f = env.mod("utils").get_central_wave
    ws, rs = _grid(env, n, lo, hi, dt, order, rmax, rmin)
    w, r = env.array(ws, dt), env.array(rs, dt)
    snap = env.snapshot(w, r)
    if weight == "none":
        got, wt = f(w, r), [1.0] * n
    elif weight == "number":
        c = env.real("c", 0.5, 3.0)
        got, wt = f(w, r, weight=c), [c] * n
    elif weight == "positional":
        wt = [env.real("wt%d" % i, 0.1, 2.0) for i in range(n)]
        got = f(w, r, env.array(wt))
    else:
        wt = [1.0 / x ** 4 for x in ws]
        got = f(w, r, weight=1.0 / w ** 4)
    den = trapz([a * b for a, b in zip(rs, wt)], ws)
    num = trapz([a * b * x for a, b, x in zip(rs, wt, ws)], ws)
    tol = 1e-8 if dt == F64 else 1e-3
    env.assert_close("first moment of the response", [got * den], [num], rtol=tol)
    if dt == F64 and weight == "none" and n <= 3 and rmin >= 0:
        env.assert_le("not before the first wavelength", min(ws[0], ws[-1]) if not env.sym else ws[0 if order == 1 else -1], got, tol=1e-6)
        env.assert_le("not after the last wavelength", got, max(ws[0], ws[-1]) if not env.sym else ws[-1 if order == 1 else 0], tol=1e-6)
    env.assert_unchanged("inputs are not modified", snap, [w, r])
    env.assert_close("the same again", [f(w, r)], [f(w, r)])


def scaling(env, n):
    """A response scaled by a constant has the same centre."""
    f = env.mod("utils").get_central_wave
    ws, rs = _grid(env, n, 0.4, 2.0)
    c = env.real("c", 1e-5, 1e5)
    a = f(env.array(ws), env.array(rs))
    b = f(env.array(ws), env.array(rs) * c)
    env.assert_close("independent of the scale of the response", [a], [b], rtol=1e-9)
    s = env.real("s", 0.5, 2.0)
    d = f(env.array(ws) * s, env.array(rs))
    env.assert_close("scales with the wavelength", [d], [a * s], rtol=1e-9)


def integral(env, n, ndet, respmin=0.0):
    bands = {b: {"det-%d" % d: sym_det(env, "%s.%d" % (b, d), n, 0.4, 2.0, respmin=respmin, concrete=None if b == "ch1" else np.linspace(0.5, 0.7, n))
                 for d in range(1, ndet + 1)} for b in ("ch1", "ch2")}
    env.write_rsr("Imaginary-1", "someinst", bands)
    r = env.mod("rsr_reader").RelativeSpectralResponse("Imaginary-1", "someinst")
    for b in ("ch2", "ch1"):
        got = r.integral(b)
        env.assert_equal("one integral per detector", sorted(got.keys()), sorted(bands[b].keys()))
        for d in bands[b]:
            env.assert_close("integral of the response", [got[d]], [trapz(bands[b][d]["rs"], bands[b][d]["ws"])], rtol=1e-8, atol=1e-12)
    got = r.integral("1")
    env.assert_close("integral by another name of the band", [got["det-1"]],
                     [trapz(bands["ch1"]["det-1"]["rs"], bands["ch1"]["det-1"]["ws"])], rtol=1e-8, atol=1e-12)
    env.assert_true("an unknown band is refused", env.raises(KeyError, r.integral, "nosuchband"))


def configs(tier):
    out = []
    for weight in ("none", "number", "positional", "rayleigh"):
        out.append(Cfg("centre-%s" % weight, centre, dict(n=3, lo=0.4, hi=2.0, weight=weight),
                       must_reach=["first moment of the response"], bounds="3 points"))
    out.append(Cfg("centre-2", centre, dict(n=2, lo=3.0, hi=14.0, weight="none"), must_reach=["first moment of the response"]))
    out.append(Cfg("centre-5", centre, dict(n=5, lo=3.0, hi=14.0, weight="none"), must_reach=["first moment of the response"]))
    out.append(Cfg("centre-wavenumber", centre, dict(n=3, lo=700.0, hi=3000.0, weight="none"),
                   must_reach=["first moment of the response"]))
    out.append(Cfg("centre-decreasing", centre, dict(n=3, lo=0.4, hi=2.0, weight="none", order=-1),
                   must_reach=["first moment of the response"]))
    for weight in ("number", "positional", "rayleigh"):
        out.append(Cfg("centre-decreasing-%s" % weight, centre, dict(n=3, lo=0.4, hi=2.0, weight=weight, order=-1),
                       must_reach=["first moment of the response"], budget=180))
    for rmax in (1e-4, 1e4):
        out.append(Cfg("centre-scale-%s" % rmax, centre, dict(n=3, lo=0.4, hi=2.0, weight="positional", rmax=rmax),
                       must_reach=["first moment of the response"]))
    out.append(Cfg("centre-far", centre, dict(n=3, lo=20.0, hi=2000.0, weight="none"), must_reach=["first moment of the response"]))
    out.append(Cfg("centre-float32", centre, dict(n=3, lo=0.4, hi=2.0, weight="none", dt="float32"),
                   must_reach=["first moment of the response"]))
    for weight in ("none", "number"):
        out.append(Cfg("centre-noise-%s" % weight, centre, dict(n=3, lo=0.4, hi=2.0, weight=weight, rmin=-0.1),
                       must_reach=["first moment of the response"], bounds="3 points, responses in [-0.1, 1]"))
    out.append(Cfg("integral-noise", integral, dict(n=3, ndet=2, respmin=-0.1), must_reach=["integral of the response"]))
    out.append(Cfg("scaling", scaling, dict(n=3), must_reach=["independent of the scale of the response"]))
    out.append(Cfg("integral-1", integral, dict(n=3, ndet=1), must_reach=["integral of the response"]))
    out.append(Cfg("integral-3", integral, dict(n=2, ndet=3), must_reach=["integral of the response"]))
    out.append(Cfg("integral-11", integral, dict(n=2, ndet=11), must_reach=["integral of the response"]))
    out.append(Cfg("integral-2", integral, dict(n=4, ndet=2), must_reach=["integral of the response"]))
    if tier == "thorough":
        out.append(Cfg("centre-8", centre, dict(n=8, lo=0.4, hi=2.0, weight="rayleigh"), must_reach=["first moment of the response"],
                       budget=600))
        out.append(Cfg("integral-6", integral, dict(n=6, ndet=4), must_reach=["integral of the response"]))
    return out
