"""C04: the Tb-to-radiance look-up table gives the radiance of its temperature step."""
import numpy as np

from props.c03 import expected
from props.common import F32, F64, Cfg, wrap
from props.rsrlib import sym_det

ASSUMPTIONS = ["temperatures in [-1000, 70000] K and NaN; tables of 2-40 entries (and the full one of 2100) starting at "
               "150-326 K with steps of 0.01, 0.1, 0.25, 0.5, 1 and 10 K; temperatures within rounding error of a table step are not decided"]


def converter(env, res=None, n=2, sym=False, detector=None):
    det = sym_det(env, "d1", n, 9.0, 13.0, cw=11.0, concrete=None if sym else [10.0, 10.5, 12.0, 12.5][:n])
    det2 = sym_det(env, "d2", n, 9.0, 13.0, cw=11.0, concrete=None if sym else [9.0, 10.5, 11.0, 12.0][:n])
    env.write_rsr("Imaginary-1", "someinst", {"ch4": {"det-1": det, "det-2": det2}})
    kw = {} if res is None else {"tb_resolution": res}
    if detector:
        kw["detector"] = detector
    rtc = env.mod("radiance_tb_conversion")
    return rtc, rtc.RadTbConverter("Imaginary-1", "someinst", "ch4", **kw), det2 if detector == "det-2" else det


def lookup(env, res, start, n, form, dt, shape, normalized):
    rtc, conv, _ = converter(env, res)
    dt = np.dtype(dt)
    tab = env.table("rad", n, 0.0, 20.0)
    lut = {"tb": start + res * np.arange(n), "radiance": tab}
    t = env.reals("t", shape, -1000.0, 70000.0, dt, nan=True)
    # keep clear of the steps, where rounding decides
    want = []
    start_k = int(round(start / res))
    for x in env.flat(t):
        if env.isnan(x):
            want.append(float("nan"))
            continue
        k = env.floor(x / res, eps=1e-4 if dt == F32 else 1e-7)
        if env.lt(k, start_k, exact=True):
            want.append(env.lookup(tab, 0))
        elif env.gt(k, start_k + n - 1, exact=True):
            want.append(env.lookup(tab, n - 1))
        else:
            want.append(env.lookup(tab, k - start_k))
    snap = env.snapshot(t)
    arg = t if form == "numpy" else t[(0,) * len(shape)] if form == "npscalar" else wrap(env, t, form, (1,) * len(shape))
    res_ = conv.tb2radiance(arg, lut=lut, normalized=normalized)
    env.assert_close("radiance of the table step", res_["radiance"], want, rtol=1e-9 if dt == F64 else 1e-5)
    if form != "npscalar" and int(np.prod(shape)) > 1:
        env.assert_shape("one radiance per pixel", res_["radiance"], shape)
        env.assert_dtype("dtype of the temperatures", res_["radiance"], dt)
    env.assert_equal("unit", res_["unit"], "W/m^2 sr^-1 m^-1" if normalized else "W/m^2 sr^-1")
    env.assert_unchanged("the temperatures are not modified", snap, [t])


def integers(env, space):
    """Whole temperatures; the radiances are not rounded."""
    det = sym_det(env, "d1", 2, 9.0, 13.0, cw=11.0, concrete=[10.0, 12.0])
    env.write_rsr("Imaginary-1", "someinst", {"ch4": {"det-1": det}})
    conv = env.mod("radiance_tb_conversion").RadTbConverter("Imaginary-1", "someinst", "ch4", wavespace=space, tb_resolution=1.0)
    tab = env.table("rad", 40, 0.0, 1.0e-3 if space == "wavenumber" else 20.0)
    lut = {"tb": 200.0 + np.arange(40), "radiance": tab}
    t = env.array([env.int("t0", 150, 300), env.int("t1", 150, 300)], np.dtype(env.choice("dt", ["int64", "int32", "int16"])))
    want = []
    for x in env.flat(t):
        k = 0 if env.lt(x, 200, exact=True) else 39 if env.gt(x, 239, exact=True) else x - 200
        want.append(env.lookup(tab, k))
    arg = env.dask(t, (1,)) if env.bool("dask") else t
    env.assert_close("radiance of the table step", conv.tb2radiance(arg, lut=lut)["radiance"], want, rtol=1e-9)


def made(env, res, normalized, sym, detector=None):
    """The entries of a table that is made, stored and read back are the radiances of its temperatures."""
    rtc, conv, det = converter(env, res, sym=sym, detector=detector)
    fn = str(env.lut_dir / "lut.npz")
    if normalized is None:
        conv.make_tb2rad_lut(fn)
    else:
        conv.make_tb2rad_lut(fn, normalized=normalized)
    lut = conv.read_tb2rad_lut(fn)
    tb = np.arange(150.0, 360.0, res)
    env.assert_close("temperatures of the table", lut["tb"], list(tb), rtol=1e-12)
    want = expected(env, det, list(tb), "wavelength", normalized is not False)
    env.assert_close("radiances of the table", lut["radiance"], want, rtol=1e-7)


def agree(env, res, start, n, shape):
    """numpy and dask arrays, whole or in chunks, give the same radiances."""
    rtc, conv, _ = converter(env, res)
    tab = env.table("rad", n, 0.0, 20.0)
    lut = {"tb": start + res * np.arange(n), "radiance": tab}
    t = env.reals("t", shape, 100.0, 400.0)
    a = conv.tb2radiance(t, lut=lut)["radiance"]
    b = conv.tb2radiance(env.dask(t, (1,) * len(shape)), lut=lut)["radiance"]
    c = conv.tb2radiance(env.dask(t), lut=lut)["radiance"]
    env.assert_true("dask stays lazy", hasattr(b, "compute") and hasattr(c, "compute"))
    env.assert_close("chunked dask and numpy", b, env.flat(a))
    env.assert_close("one dask chunk and numpy", c, env.flat(a))


def configs(tier):
    out = []
    th = tier == "thorough"
    tabs = [(0.1, 200.0, 20), (0.5, 290.0, 2), (10.0, 150.0, 21), (1.0, 180.0, 40), (0.25, 200.0, 7), (0.01, 326.0, 30)]
    for i, (res, start, n) in enumerate(tabs):
        for form in ("numpy", "dask", "npscalar"):
            for dt in ("float64", "float32"):
                if not th and (i + (form == "dask") + (dt == "float32")) % 2 and i:
                    continue
                shape = (1,) if form == "npscalar" else (2,) if i % 2 else (2, 1)
                out.append(Cfg("lut-%g-%s-%s" % (res, form, dt), lookup,
                               dict(res=res, start=start, n=n, form=form, dt=dt, shape=shape, normalized=i % 2 == 0),
                               must_reach=["radiance of the table step"], budget=120, bounds="%d pixels, %d entries" % (
                                   int(np.prod(shape)), n)))
    out.append(Cfg("lut-default-res", lookup, dict(res=None or 0.1, start=150.0, n=2100, form="numpy", dt="float64", shape=(2,),
                                                   normalized=True), must_reach=["radiance of the table step"], budget=120,
                   bounds="2 pixels, the full 2100 entry table"))
    for space in ("wavelength", "wavenumber"):
        out.append(Cfg("integers-" + space, integers, dict(space=space), must_reach=["radiance of the table step"], budget=120,
                       bounds="2 pixels, 40 entries"))
    for res, normalized, sym in ((30.0, True, True), (30.0, False, True), (30.0, None, True), (7.0, True, False)):
        out.append(Cfg("made-%g-%s-%s" % (res, normalized, sym), made, dict(res=res, normalized=normalized, sym=sym),
                       must_reach=["radiances of the table"], budget=120, bounds="%d entries" % len(np.arange(150, 360, res))))
    out.append(Cfg("made-det2", made, dict(res=30.0, normalized=True, sym=True, detector="det-2"),
                   must_reach=["radiances of the table"], budget=120, bounds="7 entries"))
    for shape in ((2,), (2, 2)) if th else ((2,), (1, 2)):
        out.append(Cfg("agree-%dd" % len(shape), agree, dict(res=0.1, start=200.0, n=30, shape=shape),
                       must_reach=["chunked dask and numpy"], budget=120, bounds="%s pixels" % (shape,)))
    return out
