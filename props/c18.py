"""C18: sorted responses are increasing, without duplicates, and keep what belongs together."""
import numpy as np

from props.common import F32, F64, Cfg

ASSUMPTIONS = ["1-4 points (5 in the thorough tier) with arbitrary abscissae, equal ones included, and arbitrary ordinates"]


def sort(env, n, dt="float64", ydt="float64", grid=False):
    dt = np.dtype(dt)
    if grid:
        xs = [env.int("x%d" % i, 0, n) * 0.25 for i in range(n)]
        x = env.array(xs, dt)
    else:
        x = env.reals("x", n, 0.0, 10.0, dt)
        xs = env.flat(x)
    y = env.reals("y", n, 0.0, 1.0, np.dtype(ydt))
    ys = env.flat(y)
    snap = env.snapshot(x, y)
    gx, gy = env.mod("utils").sort_data(x, y)
    env.assert_unchanged("inputs are not modified", snap, [x, y])
    ox, oy = env.flat(gx), env.flat(gy)
    env.assert_true("as many ordinates as abscissae", len(ox) == len(oy))
    env.assert_dtype("dtype of the abscissae", gx, dt)
    env.assert_dtype("dtype of the ordinates", gy, ydt)
    for a, b in zip(ox[:-1], ox[1:]):
        env.assert_lt("strictly increasing", a, b)
    for a in xs:
        env.assert_true("every abscissa is kept", any(env.eq(a, b) for b in ox))
    for a, b in zip(ox, oy):
        env.assert_true("every point is one of the input", any(env.eq(a, u) and env.eq(b, v) for u, v in zip(xs, ys)))
    # what is sorted stays as it is
    hx, hy = env.mod("utils").sort_data(gx, gy)
    env.assert_close("sorting again changes nothing", hx, ox)
    env.assert_close("sorting again changes nothing", hy, oy)


def configs(tier):
    out = []
    for n in (1, 2, 3, 4):
        out.append(Cfg("sort-%d" % n, sort, dict(n=n), must_reach=["every abscissa is kept"], bounds="%d points" % n, budget=120))
    out.append(Cfg("sort-grid", sort, dict(n=3, grid=True), must_reach=["every abscissa is kept"], bounds="3 points on a grid"))
    out.append(Cfg("sort-float32", sort, dict(n=3, dt="float32", ydt="float32"), must_reach=["every abscissa is kept"], bounds="3 points"))
    if tier == "thorough":
        out.append(Cfg("sort-5", sort, dict(n=5), must_reach=["every abscissa is kept"], bounds="5 points", budget=1800))
    return out
