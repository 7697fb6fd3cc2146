"""C03: a band radiance is the response-weighted Planck radiance."""
import numpy as np

from props.c02 import planck_law
from props.common import F64, Cfg, wrap
from props.rsrlib import sym_det, trapz

ASSUMPTIONS = ["spectral responses of 2-4 points in [3, 14] micrometre with responses from -0.05 to 1, 1-2 detectors, "
               "temperatures in [150, 400] K"]


def expected(env, det, ts, space, normalized):
    bb = env.mod("blackbody")
    if space == "wavelength":
        xs = [w * 1e-6 for w in det["ws"]]
        rs = list(det["rs"])
    else:
        xs = [1 / (w * 1e-6) for w in det["ws"]][::-1]
        rs = list(det["rs"])[::-1]
    out = []
    for t in ts:
        ys = [planck_law(env, bb, x, t, space) * r for x, r in zip(xs, rs)]
        v = trapz(ys, xs)
        if normalized:
            v = v / trapz(rs, xs)
        out.append(v)
    return out


UNIT = {("wavelength", True): "W/m^2 sr^-1 m^-1", ("wavenumber", True): "W/m^2 sr^-1 (m^-1)^-1",
        ("wavelength", False): "W/m^2 sr^-1", ("wavenumber", False): "W/m^2 sr^-1"}


def radiance(env, space, normalized, form, n, nt, band, ndet, symw):
    conc = None if symw else {2: [10.0, 12.5], 3: [10.0, 10.75, 12.5], 4: [10.0, 10.5, 11.0, 12.5]}[n]
    conc2 = None if symw else {2: [9.5, 12.0], 3: [9.0, 11.0, 12.0], 4: [9.0, 9.5, 11.5, 12.0]}[n]
    cw = env.real("cw", 10.92, 11.08)
    d1 = sym_det(env, "d1", n, 9.0, 13.0, concrete=conc, cw=cw)
    dets = {"det-1": d1}
    if ndet == 2:
        dets["det-2"] = sym_det(env, "d2", n, 9.0, 13.0, concrete=conc2, cw=cw)
    other = {"wavelength": env.array([3.5, 3.7, 4.0]), "response": env.array([0.2, 1.0, 0.4]), "central_wavelength": 3.7}
    env.write_rsr("Imaginary-1", "someinst", {"ch3": {k: other for k in dets}, "ch4": dets})
    rtc = env.mod("radiance_tb_conversion")
    kw = {}
    if ndet == 2:
        kw["detector"] = "det-2"
    b = {"name": "ch4", "alias": "C04", "number": 11.0}[band]
    conv = rtc.RadTbConverter("Imaginary-1", "someinst", b, wavespace=space, **kw)
    det = dets[kw.get("detector", "det-1")]
    if form == "npscalar":
        t = env.reals("t", 1, 150.0, 400.0)
        arg = t[0]
    elif form == "scalar":
        arg = env.real("t[0]", 150.0, 400.0)
        t = env.array([arg])
    else:
        t = env.reals("t", nt, 150.0, 400.0)
        arg = wrap(env, t, form, (1,))
    snap = env.snapshot(t)
    res = conv.tb2radiance(arg, normalized=normalized)
    want = expected(env, det, env.flat(t), space, normalized)
    env.assert_close("band radiance", res["radiance"], want, rtol=1e-7)
    env.assert_equal("unit", res["unit"], UNIT[space, normalized])
    env.assert_true("scale", res["scale"] == 1.0)
    res2 = conv.tb2radiance(arg, normalized=normalized)
    env.assert_close("band radiance, asked again", res2["radiance"], want, rtol=1e-7)
    env.assert_unchanged("the temperatures are not modified", snap, [t])


def noise(env, space, normalized):
    """Measured responses with slightly negative values; files with decreasing wavelengths."""
    ws = [env.real("w%d" % i, 9.0 + i, 9.9 + i) for i in range(3)]
    rs = [env.real("r0", -0.05, 0.1), env.real("r1", 0.3, 1.0), env.real("r2", -0.05, 0.1)]
    if normalized and env.bool("decreasing"):
        ws, rs = ws[::-1], rs[::-1]
    det = {"wavelength": env.array(ws), "response": env.array(rs), "ws": ws, "rs": rs, "central_wavelength": 11.0}
    env.write_rsr("Imaginary-1", "someinst", {"ch4": {"det-1": det}})
    conv = env.mod("radiance_tb_conversion").RadTbConverter("Imaginary-1", "someinst", "ch4", wavespace=space)
    t = env.reals("t", 1, 150.0, 400.0)
    res = conv.tb2radiance(t, normalized=normalized)
    env.assert_close("band radiance", res["radiance"], expected(env, det, env.flat(t), space, normalized), rtol=1e-7)


def image(env, space, form, shape):
    """Images keep their shape."""
    det = sym_det(env, "d1", 2, 9.0, 13.0, cw=11.0)
    env.write_rsr("Imaginary-1", "someinst", {"ch4": {"det-1": det}})
    conv = env.mod("radiance_tb_conversion").RadTbConverter("Imaginary-1", "someinst", "ch4", wavespace=space)
    t = env.reals("t", shape, 150.0, 400.0)
    norm = env.bool("normalized")
    res = conv.tb2radiance(wrap(env, t, form, (1,) * len(shape)), normalized=norm)
    env.assert_shape("one radiance per pixel", res["radiance"], shape)
    env.assert_close("band radiance", res["radiance"], expected(env, det, env.flat(t), space, norm), rtol=1e-7)


def default_args(env):
    """normalized radiance in wavelength space of the first detector is the default."""
    det = sym_det(env, "d1", 2, 9.0, 13.0, cw=11.0)
    det2 = sym_det(env, "d2", 2, 9.0, 13.0, cw=11.0)
    env.write_rsr("Imaginary-1", "someinst", {"ch4": {"det-1": det, "det-2": det2}})
    conv = env.mod("radiance_tb_conversion").RadTbConverter("Imaginary-1", "someinst", "ch4")
    t = env.reals("t", 1, 150.0, 400.0)
    res = conv.tb2radiance(t)
    env.assert_close("default band radiance", res["radiance"], expected(env, det, env.flat(t), "wavelength", True), rtol=1e-7)


def mean_bounds(env, space):
    """The normalised radiance lies between the Planck radiances at the ends of the band: here as an energy-weighted mean of
    two points, and grows with the temperature."""
    det = sym_det(env, "d1", 2, 9.0, 13.0, respmin=0.1, cw=11.0)
    env.write_rsr("Imaginary-1", "someinst", {"ch4": {"det-1": det}})
    rtc = env.mod("radiance_tb_conversion")
    conv = rtc.RadTbConverter("Imaginary-1", "someinst", "ch4", wavespace=space)
    bb = env.mod("blackbody")
    t = env.reals("t", 2, 150.0, 400.0)
    t0, t1 = env.flat(t)
    env.assume(t0 + 1e-3 < t1)
    a, b = env.flat(conv.tb2radiance(t)["radiance"])
    env.assert_lt("a warmer scene has more band radiance", a, b)
    xs = [w * 1e-6 for w in det["ws"]] if space == "wavelength" else [1 / (w * 1e-6) for w in det["ws"]]
    p = [planck_law(env, bb, x, t0, space) for x in xs]
    lo, hi = (p[0], p[1]) if env.le(p[0], p[1]) else (p[1], p[0])
    env.assert_le("not below the spectral radiances of the band", lo, a)
    env.assert_le("not above the spectral radiances of the band", a, hi)


def by_wavelength(env, space):
    """A wavelength stands for the band whose centre is within 0.1 micrometre, and for no other."""
    c4, c5 = env.real("c4", 10.0, 11.5), env.real("c5", 11.6, 13.0)
    d4 = sym_det(env, "d4", 2, 9.0, 13.0, concrete=[10.0, 11.5], cw=c4)
    d5 = sym_det(env, "d5", 2, 9.0, 13.0, concrete=[11.5, 13.0], cw=c5)
    d1 = {"wavelength": env.array([0.5, 0.6, 0.7]), "response": env.array([0.2, 1.0, 0.4]), "central_wavelength": env.real("c1", 0.55, 0.65)}
    env.write_rsr("Imaginary-1", "someinst", {"ch1": {"det-1": d1}, "ch4": {"det-1": d4}, "ch5": {"det-1": d5}})
    w = env.real("w", 9.0, 14.0)
    near = []
    for name, c in (("ch4", c4), ("ch5", c5)):
        d = c - w if env.lt(w, c, exact=True) else w - c
        if env.lt(d, 0.1, gap=1e-6):
            near.append(name)
    rtc = env.mod("radiance_tb_conversion")
    try:
        conv = rtc.RadTbConverter("Imaginary-1", "someinst", w, wavespace=space)
    except (KeyError, AttributeError, ValueError, TypeError, NotImplementedError):
        env.assert_true("a wavelength of exactly one band is accepted", len(near) != 1)
        return
    env.assert_true("a wavelength that is not that of one band is refused", len(near) == 1, "%s -> %s" % (near, conv.bandname))
    t = env.reals("t", 1, 150.0, 400.0)
    env.assert_close("radiance of the band at the wavelength", conv.tb2radiance(t)["radiance"],
                     expected(env, {"ch4": d4, "ch5": d5}[near[0]], env.flat(t), space, True), rtol=1e-7)


def bad_space(env):
    det = sym_det(env, "d1", 2, 9.0, 13.0, cw=11.0)
    env.write_rsr("Imaginary-1", "someinst", {"ch4": {"det-1": det}})
    rtc = env.mod("radiance_tb_conversion")
    env.assert_true("an unknown wave space is refused",
                    env.raises(AttributeError, rtc.RadTbConverter, "Imaginary-1", "someinst", "ch4", wavespace="frequency"))


def band_tb(env, form, space):
    """radiance2tb of the converter is the monochromatic inverse at the central wavelength of the band."""
    cw = env.real("cw", 10.0, 12.0)
    det = sym_det(env, "d1", 2, 9.0, 13.0, cw=cw)
    env.write_rsr("Imaginary-1", "someinst", {"ch4": {"det-1": det}})
    rtc = env.mod("radiance_tb_conversion")
    conv = rtc.RadTbConverter("Imaginary-1", "someinst", "ch4", wavespace=space)
    rad = env.reals("rad", 2, 0.1, 20.0) * 1e6
    got = conv.radiance2tb(wrap(env, rad, form))
    bb = env.mod("blackbody")
    h, k, c = bb.H_PLANCK, bb.K_BOLTZMANN, bb.C_SPEED
    w = cw * 1e-6
    want = [h * c / (k * w * env.log(2 * h * c * c / (r * w * w * w * w * w) + 1)) for r in env.flat(rad)]
    env.assert_close("Tb at the central wavelength", got, want, rtol=1e-7)
    got = rtc.radiance2tb(wrap(env, rad, form), w)
    env.assert_close("Tb at a wavelength", got, want, rtol=1e-7)


def configs(tier):
    out = []
    th = tier == "thorough"
    for space in ("wavelength", "wavenumber"):
        for normalized in (True, False):
            for form in ("numpy", "dask", "scalar", "npscalar"):
                for band in ("name", "alias", "number"):
                    ndet = 2 if band == "alias" else 1
                    symw = band == "name"
                    for n in ((2, 3) if not th else (2, 3, 4)):
                        if not th and form in ("scalar", "npscalar") and (n == 3 or band == "alias"):
                            continue
                        if form == "npscalar":
                            continue
                        out.append(Cfg("rad-%s-%s-%s-%s-%d" % (space, "norm" if normalized else "int", form, band, n), radiance,
                                       dict(space=space, normalized=normalized, form=form, n=n, nt=2 if n < 3 else 1, band=band,
                                            ndet=ndet, symw=symw and n < 4), must_reach=["band radiance"], budget=100,
                                       bounds="%d response points" % n))
        for normalized in (True, False):
            out.append(Cfg("noise-%s-%s" % (space, "norm" if normalized else "int"), noise, dict(space=space, normalized=normalized),
                           must_reach=["band radiance"], bounds="3 response points, also negative"))
        out.append(Cfg("bywave-" + space, by_wavelength, dict(space=space), must_reach=["radiance of the band at the wavelength",
                       "a wavelength of exactly one band is accepted"], bounds="2 bands, 2 points", budget=100))
        out.append(Cfg("mean-" + space, mean_bounds, dict(space=space), must_reach=["a warmer scene has more band radiance"],
                       bounds="2 response points, 2 temperatures", budget=100))
    for form in ("numpy", "dask"):
        out.append(Cfg("tb-" + form, band_tb, dict(form=form, space="wavelength"), must_reach=["Tb at the central wavelength"],
                       bounds="2 radiances"))
        for shape in ((2, 1), (1, 2), (2, 2)):
            out.append(Cfg("image-%s-%dx%d" % ((form,) + shape), image, dict(form=form, shape=shape, space="wavenumber" if shape[0] == 1
                           else "wavelength"), must_reach=["band radiance"], bounds="%dx%d pixels" % shape, budget=100))
    out.append(Cfg("default", default_args, must_reach=["default band radiance"], bounds="2 points, 2 detectors"))
    out.append(Cfg("badspace", bad_space, must_reach=["an unknown wave space is refused"]))
    return out
