"""Relative spectral responses for the harnesses."""
import numpy as np


def sym_det(env, name, n, lo, hi, respmin=0.0, concrete=None, cw=None, respmax=1.0):
    """A detector with n symbolic (or concrete) increasing wavelengths in micrometre and symbolic responses."""
    if concrete is not None:
        ws = [float(x) for x in concrete]
    else:
        ws = [env.real("%s.w%d" % (name, i), lo, hi) for i in range(n)]
        for a, b in zip(ws[:-1], ws[1:]):
            env.assume(a + (hi - lo) * 0.01 < b)
    rs = [env.real("%s.r%d" % (name, i), respmin, respmax) for i in range(n)]
    s = rs[0]
    for r in rs[1:]:
        s = s + r
    env.assume(s > 0.05)
    return {"wavelength": env.array(ws), "response": env.array(rs), "ws": ws, "rs": rs,
            "central_wavelength": ws[n // 2] if cw is None else cw}


def trapz(ys, xs):
    acc = None
    for (x0, x1, y0, y1) in zip(xs[:-1], xs[1:], ys[:-1], ys[1:]):
        t = (x1 - x0) * (y0 + y1) / 2
        acc = t if acc is None else acc + t
    return acc
