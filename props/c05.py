"""C05: the SEVIRI regression converts radiances and brightness temperatures back and forth."""
import numpy as np

from props.common import F32, F64, Cfg, wrap

ASSUMPTIONS = ["all tabulated SEVIRI bands of Meteosat-8 and -9, brightness temperatures in [150, 400] K, 1-2 pixels"]

# Effective radiance and brightness temperature relation (EUMETSAT): wavenumber cm-1, alpha, beta
COEFF = {"IR3.9": {8: (2567.330, 0.9956, 3.410), 9: (2568.832, 0.9954, 3.438)},
         "WV6.2": {8: (1598.103, 0.9962, 2.218), 9: (1600.548, 0.9963, 2.185)},
         "WV7.3": {8: (1362.081, 0.9991, 0.478), 9: (1360.330, 0.9991, 0.470)},
         "IR8.7": {8: (1149.069, 0.9996, 0.179), 9: (1148.620, 0.9996, 0.179)},
         "IR9.7": {8: (1034.343, 0.9999, 0.060), 9: (1035.289, 0.9999, 0.056)},
         "IR10.8": {8: (930.647, 0.9983, 0.625), 9: (931.700, 0.9983, 0.640)},
         "IR12.0": {8: (839.660, 0.9988, 0.397), 9: (836.445, 0.9988, 0.408)},
         "IR13.4": {8: (752.387, 0.9981, 0.578), 9: (751.792, 0.9981, 0.561)}}
ALIAS = {"IR_039": "IR3.9", "IR_087": "IR8.7", "IR_097": "IR9.7", "IR_108": "IR10.8", "IR_120": "IR12.0", "IR_134": "IR13.4"}


def roundtrip(env, sat, form, names, shape=None, dt="float64"):
    rtc = env.mod("radiance_tb_conversion")
    bb = env.mod("blackbody")
    name = env.choice("band", names)
    band = ALIAS.get(name, name)
    conv = rtc.SeviriRadTbConverter("Meteosat-%d" % sat, name)
    nu, a, b = COEFF[band][sat]
    dt = np.dtype(dt)
    t = env.reals("t", shape or 2, 150.0, 400.0, dt)
    arg = wrap(env, t, form, None if not shape else (1,) * len(shape)) if form != "scalar" else env.real("t[0]", 150.0, 400.0)
    ts = env.flat(t) if form != "scalar" else [arg]
    res = conv.tb2radiance(arg)
    h, k, c = bb.H_PLANCK, bb.K_BOLTZMANN, bb.C_SPEED
    v = nu * 100.0
    want = [2 * h * c * c * v ** 3 / (env.exp(h * c / k * v / (a * x + b)) - 1) for x in ts]
    env.assert_close("regression radiance", res["radiance"], want, rtol=1e-8 if dt == F64 else 1e-3)
    if form != "scalar":
        env.assert_shape("one radiance per pixel", res["radiance"], shape or (2,))
        env.assert_true("dask stays lazy", hasattr(res["radiance"], "compute") == (form == "dask"))
    env.assert_equal("unit", res["unit"], "W/m^2 sr^-1 (m^-1)^-1")
    env.assert_true("scale", res["scale"] == 1.0)
    back = conv.radiance2tb(res["radiance"])
    env.assert_close("Tb of the radiance of Tb is Tb", back, ts, rtol=1e-7 if dt == F64 else 1e-3)
    if form != "scalar":
        env.assert_shape("one Tb per pixel", back, shape or (2,))


def inverse(env, sat, names):
    rtc = env.mod("radiance_tb_conversion")
    bb = env.mod("blackbody")
    name = env.choice("band", names)
    conv = rtc.SeviriRadTbConverter("Meteosat-%d" % sat, name)
    rad = env.reals("r", 2, 0.01, 300.0) * 1e-5
    nu, a, b = COEFF[ALIAS.get(name, name)][sat]
    h, k, c = bb.H_PLANCK, bb.K_BOLTZMANN, bb.C_SPEED
    v = nu * 100.0
    tb = conv.radiance2tb(rad)
    want = [h * c / k * v / (a * env.log(2 * h * c * c * v ** 3 / r + 1)) - b / a for r in env.flat(rad)]
    env.assert_close("regression Tb", tb, want, rtol=1e-7)
    back = conv.tb2radiance(tb)["radiance"]
    env.assert_close("radiance of the Tb of a radiance is the radiance", back, env.flat(rad), rtol=1e-6)


def refused(env, sat):
    """Band-integrated radiances, look-up tables and numeric bands are refused, not answered wrongly."""
    rtc = env.mod("radiance_tb_conversion")
    conv = rtc.SeviriRadTbConverter("Meteosat-%d" % sat, "IR10.8")
    t = env.reals("t", 1, 150.0, 400.0)
    env.assert_true("no band-integrated radiance", env.raises(NotImplementedError, conv.tb2radiance, t, normalized=False))
    env.assert_true("no look-up table", env.raises(NotImplementedError, conv.tb2radiance, t, lut={"tb": t, "radiance": t}))
    w = env.real("w", 3.0, 13.0)
    kind = env.choice("kind", ["float", "int", "numpy"])
    if kind == "int":
        w = int(env.int("channel", 1, 12))
    elif kind == "numpy":
        w = env.array([w], F32)[0]
    env.assert_true("no numeric band", env.raises(AttributeError, rtc.SeviriRadTbConverter, "Meteosat-%d" % sat, w))


def configs(tier):
    out = []
    names = list(COEFF) + list(ALIAS)
    for sat in (8, 9):
        for form in ("numpy", "dask", "scalar"):
            out.append(Cfg("rt-%d-%s" % (sat, form), roundtrip, dict(sat=sat, form=form, names=names),
                           must_reach=["Tb of the radiance of Tb is Tb"], bounds="2 pixels, all bands"))
        for form in ("numpy", "dask"):
            out.append(Cfg("rt-%d-%s-2d" % (sat, form), roundtrip, dict(sat=sat, form=form, names=list(COEFF), shape=(1, 2)),
                           must_reach=["Tb of the radiance of Tb is Tb"], bounds="1x2 pixels, all bands"))
        out.append(Cfg("rt-%d-f32" % sat, roundtrip, dict(sat=sat, form="numpy", names=list(COEFF), dt="float32"),
                       must_reach=["Tb of the radiance of Tb is Tb"], bounds="2 pixels, all bands"))
        out.append(Cfg("inv-%d" % sat, inverse, dict(sat=sat, names=names),
                       must_reach=["radiance of the Tb of a radiance is the radiance"], bounds="2 pixels, all bands"))
        out.append(Cfg("refused-%d" % sat, refused, dict(sat=sat), must_reach=["no numeric band"]))
    return out
