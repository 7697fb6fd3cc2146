"""C06: the near-infrared reflectance solves the energy balance where it is defined."""
import numpy as np

from props.common import F32, F64, Cfg, wrap
from props.nirlib import INTEGRAL1, START, calculator, direct_radiance, reflectance, table_radiance

ASSUMPTIONS = ["brightness temperatures in [200, 360] K or NaN or masked, solar zenith angles in [-20, 120] degrees or NaN, "
               "solar flux in [1, 5] W/m2, 1-2 pixels; a look-up table of 1600 arbitrary radiances, or direct integration over a "
               "concrete 6-point response; denominators within 1e-6 of the 0.005 limit are not decided"]
LO, HI = START + 0.05, START + 159.9


def balance(env, form, dt, shape, co2, threshold=85.0, limit=85.0, nan=True, lutmode="table", zlo=-20.0, zhi=120.0):
    dt = np.dtype(dt)
    kw = {}
    if threshold != 85.0:
        kw["sunz_threshold"] = threshold
    if limit != 85.0:
        kw["masking_limit"] = limit
    calc, lut, flux = calculator(env, narrow=lutmode == "direct", **kw)
    integral = INTEGRAL1 if lutmode == "direct" else None
    nir = env.reals("nir", shape, LO, HI, dt, nan=nan)
    th = env.reals("th", shape, LO, HI, dt, nan=nan)
    sz = env.reals("sz", shape, zlo, zhi, dt, nan=nan)
    args = {}
    co = None
    if co2:
        co = env.reals("co", shape, 180.0, 300.0, dt, nan=nan)
        args["tb_ir_co2"] = wrap(env, co, form)
    want = []
    for i in np.ndindex(*shape):
        n, t, z = (a[i] for a in (nir, th, sz))
        if lutmode == "table":
            rn, rt = table_radiance(env, lut, n, dt), table_radiance(env, lut, t, dt)
        else:
            rn, rt = direct_radiance(env, n), direct_radiance(env, t)
        corr = 1.0
        if co2 and not env.isnan(t):
            c = co[i]
            if env.isnan(c):
                corr = c
            else:
                u = (0.75 * t + 0.25 * c) / t
                corr = u * u * u * u
        want.append(reflectance(env, rn, rt, z, flux, corr, threshold, limit, integral))
    args["lut"] = lut if lutmode == "table" else False
    snap = env.snapshot(nir, th, sz)
    got = calc.reflectance_from_tbs(wrap(env, sz, form), wrap(env, nir, form), wrap(env, th, form), **args)
    if form in ("dask", "xarray"):
        env.assert_true("dask stays lazy", hasattr(got, "compute"))
    else:
        env.assert_true("a computed result", not hasattr(got, "compute"))
    env.assert_shape("one reflectance per pixel", got, shape)
    env.assert_close("reflectance", got, want, rtol=1e-6 if dt == F64 else 5e-2, atol=1e-9 if dt == F64 else 1e-3)
    env.assert_unchanged("inputs are not modified", snap, [nir, th, sz])


def scalars(env, kind):
    calc, lut, flux = calculator(env)
    n, t, z = env.real("nir", LO, HI), env.real("th", LO, HI), env.real("sz", -20.0, 120.0)
    want = reflectance(env, table_radiance(env, lut, n), table_radiance(env, lut, t), z, flux)
    if kind == "scalar":
        got = calc.reflectance_from_tbs(z, n, t, lut=lut)
    else:
        got = calc.reflectance_from_tbs([z], [n], [t], lut=lut)
    env.assert_shape("one reflectance", got, (1,))
    env.assert_close("reflectance", got, [want], rtol=1e-6, atol=1e-9)


def integers(env, kind, co):
    """Temperatures and angles in whole numbers."""
    calc, lut, flux = calculator(env)
    n, t, z = env.int("nir", 201, 350), env.int("th", 201, 350), env.int("sz", 0, 80)
    corr = 1.0 if co is None else ((t * 0.75 + 0.25 * co) / t) ** 4
    rn, rt = (env.lookup(lut["radiance"], x * 10 - int(START * 10)) for x in (n, t))
    want = reflectance(env, rn, rt, z * 1.0, flux, corr)
    if kind == "scalar":
        a = (z, n, t, co)
    elif kind == "list":
        a = ([z], [n], [t], [co])
    else:
        a = [env.array([x], np.dtype("int64")) for x in (z, n, t)] + [np.array([co])]
        if kind == "dask":
            a = [env.dask(x) for x in a[:3]] + [a[3]]
    kw = {} if co is None else {"tb_ir_co2": a[3]}
    got = calc.reflectance_from_tbs(a[0], a[1], a[2], lut=lut, **kw)
    env.assert_shape("one reflectance", got, (1,))
    env.assert_close("reflectance", got, [want], rtol=1e-6, atol=1e-9)


def dtypes(env, dts):
    """Inputs of different precision."""
    calc, lut, flux = calculator(env)
    dn, dtt, dz = (np.dtype(d) for d in dts)
    nir, th, sz = env.reals("nir", 1, LO, HI, dn), env.reals("th", 1, LO, HI, dtt), env.reals("sz", 1, 0.0, 84.0, dz)
    want = reflectance(env, table_radiance(env, lut, nir[0], F32), table_radiance(env, lut, th[0], F32), sz[0], flux)
    got = calc.reflectance_from_tbs(sz, nir, th, lut=lut)
    env.assert_shape("one reflectance", got, (1,))
    env.assert_close("reflectance", got, [want], rtol=5e-2, atol=1e-3)


def masked(env, which, lutmode):
    """Masked pixels and pixels without a reflectance are masked in the result."""
    calc, lut, flux = calculator(env, narrow=lutmode == "direct")
    nir = env.reals("nir", 2, LO, HI)
    th = env.reals("th", 2, LO, HI)
    sz = env.reals("sz", 2, 0.0, 84.0)
    mn = [env.bool("mn0"), False]
    mt = [False, env.bool("mt1")]
    want = []
    rad = table_radiance if lutmode == "table" else (lambda e, l, x: direct_radiance(e, x))
    for i in range(2):
        if (which in ("nir", "both") and mn[i]) or (which in ("thermal", "both") and mt[i]):
            want.append(np.ma.masked)
            continue
        r = reflectance(env, rad(env, lut, nir[i]), rad(env, lut, th[i]), sz[i], flux,
                        integral=INTEGRAL1 if lutmode == "direct" else None)
        want.append(np.ma.masked if env.isnan(r) else r)
    a = env.masked(nir, mn) if which in ("nir", "both") else nir
    b = env.masked(th, mt) if which in ("thermal", "both") else th
    got = calc.reflectance_from_tbs(sz, a, b, lut=lut if lutmode == "table" else False)
    g = env.flat(got)
    env.assert_true("one reflectance per pixel", len(g) == 2)
    for x, w in zip(g, want):
        if w is np.ma.masked:
            env.assert_true("masked where undefined", x is np.ma.masked)
        else:
            env.assert_true("not masked where defined", x is not np.ma.masked)
            env.assert_close("reflectance", [x], [w], rtol=1e-6, atol=1e-9)


def mismatch(env):
    calc, lut, flux = calculator(env)
    nir = env.reals("nir", 2, LO, HI)
    th = env.reals("th", 3, LO, HI)
    sz = env.reals("sz", 2, 0.0, 84.0)
    env.assert_true("different shapes are refused", env.raises(ValueError, calc.reflectance_from_tbs, sz, nir, th, lut=lut))


def mixed(env, forms):
    """Lazy as soon as one of the temperatures is lazy."""
    calc, lut, flux = calculator(env)
    nir = env.reals("nir", 1, LO, HI)
    th = env.reals("th", 1, LO, HI)
    sz = env.reals("sz", 1, 0.0, 84.0)
    want = reflectance(env, table_radiance(env, lut, nir[0]), table_radiance(env, lut, th[0]), sz[0], flux)
    got = calc.reflectance_from_tbs(wrap(env, sz, forms[0]), wrap(env, nir, forms[1]), wrap(env, th, forms[2]), lut=lut)
    env.assert_true("lazy only if a temperature is lazy", hasattr(got, "compute") == ("dask" in forms[1:]))
    env.assert_close("reflectance", got, [want], rtol=1e-6, atol=1e-9)


def configs(tier):
    th = tier == "thorough"
    out = []
    r = ["reflectance"]
    for form in ("numpy", "dask", "xarray"):
        for dt in ("float64", "float32"):
            for co2 in (False, True):
                if form == "xarray" and (dt == "float32" or co2) and not th:
                    continue
                out.append(Cfg("pixel-%s-%s-%s" % (form, dt, "co2" if co2 else "plain"), balance,
                               dict(form=form, dt=dt, shape=(1,), co2=co2), must_reach=r, budget=150, bounds="1 pixel"))
        out.append(Cfg("image-%s" % form, balance, dict(form=form, dt="float64", shape=(1, 2), co2=False, nan=False, zlo=0.0),
                       must_reach=r, budget=200, bounds="1x2 pixels"))
    if th:
        out.append(Cfg("image-nan", balance, dict(form="numpy", dt="float64", shape=(2,), co2=False), must_reach=r, budget=600,
                       bounds="2 pixels"))
        out.append(Cfg("image3", balance, dict(form="numpy", dt="float64", shape=(3,), co2=True, nan=False, zlo=0.0, zhi=84.0),
                       must_reach=r, budget=600, bounds="3 pixels"))
    out.append(Cfg("thresholds", balance, dict(form="numpy", dt="float64", shape=(1,), co2=False, threshold=70.0, limit=88.0,
                                               nan=False), must_reach=r, budget=150, bounds="1 pixel"))
    out.append(Cfg("thresholds2", balance, dict(form="dask", dt="float64", shape=(1,), co2=True, threshold=88.0, limit=60.0,
                                                nan=False), must_reach=r, budget=150, bounds="1 pixel"))
    for form in ("numpy", "dask"):
        out.append(Cfg("nomask-" + form, balance, dict(form=form, dt="float64", shape=(1,), co2=False, limit=None), must_reach=r,
                       budget=150, bounds="1 pixel"))
        for co2 in (False, True):
            out.append(Cfg("direct-%s-%s" % (form, co2), balance, dict(form=form, dt="float64", shape=(1,), co2=co2,
                                                                       lutmode="direct"), must_reach=r, budget=150,
                           bounds="1 pixel, no table"))
        for shape in ((2, 1), (1, 2), (2, 2)):
            if shape == (2, 2) and not th:
                continue
            out.append(Cfg("direct-%s-%dx%d" % ((form,) + shape), balance, dict(form=form, dt="float64", shape=shape, co2=False, nan=False,
                           zlo=0.0, zhi=84.0, lutmode="direct"), must_reach=r, budget=150 if not th else 600, bounds="%dx%d pixels, no table" % shape))
    for kind in ("scalar", "list"):
        out.append(Cfg(kind, scalars, dict(kind=kind), must_reach=r, budget=100, bounds="1 pixel"))
    for which in ("nir", "thermal", "both"):
        for lutmode in ("table", "direct"):
            out.append(Cfg("masked-%s-%s" % (which, lutmode), masked, dict(which=which, lutmode=lutmode),
                           must_reach=["masked where undefined"], budget=150, bounds="2 pixels"))
    for kind in ("scalar", "list", "numpy", "dask"):
        out.append(Cfg("integers-" + kind, integers, dict(kind=kind, co=250 if kind in ("list", "dask") else None), must_reach=r, budget=100,
                       bounds="1 pixel"))
    for i, d in enumerate((("float32", "float64", "float64"), ("float64", "float32", "float64"), ("float64", "float64", "float32"))):
        out.append(Cfg("dtypes-%d" % i, dtypes, dict(dts=d), must_reach=r, budget=150, bounds="1 pixel"))
    out.append(Cfg("mismatch", mismatch, must_reach=["different shapes are refused"]))
    for i, f in enumerate((("numpy", "dask", "numpy"), ("numpy", "numpy", "dask"), ("dask", "numpy", "numpy"))):
        out.append(Cfg("mixed-%d" % i, mixed, dict(forms=f), must_reach=r, bounds="1 pixel"))
    return out
