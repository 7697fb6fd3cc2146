"""C26: in-band solar flux and irradiance."""
import numpy as np

from props.common import F64, Cfg
from props.rsrlib import trapz

ASSUMPTIONS = ["solar spectra that are cubic polynomials of the wavelength (which spline interpolation reproduces) with 5-9 tabulated "
               "points, and arbitrary tabulated irradiances where noted; responses of 4 points (their spline is the cubic through "
               "them) with arbitrary values; steps of 0.05 and 0.1 micrometre, 100 and 200 cm-1; 1-2 detectors"]
TAB = np.array([0.4, 0.5, 0.65, 0.8, 1.0, 1.3, 1.7, 2.0])


def _poly(c, x):
    return c[0] + x * (c[1] + x * (c[2] + x * c[3]))


COEF = (1800.0, -350.0, 60.0, -12.0)


def spectrum(env, name="sun.dat", tab=TAB, coef=COEF):
    fn = env.scratch / name
    fn.write_text("".join("%.17g %.17g\n" % (x, _poly(coef, x)) for x in tab))
    return fn


def lagrange(xs, ys, x):
    acc = 0.0
    for i in range(len(xs)):
        w = 1.0
        for j in range(len(xs)):
            if j != i:
                w = w * (x - xs[j]) / (xs[i] - xs[j])
        acc = acc + ys[i] * w
    return acc


def grid(a, b, step):
    n = int(round((b - a) / step)) + 1
    return [a + (b - a) * i / (n - 1) for i in range(n)] if n > 1 else [a]


def _resp(env, p, ws):
    rs = [env.real("%s.r%d" % (p, i), 0.1, 1.0) for i in range(len(ws))]
    return rs, {"wavelength": np.array(ws), "response": env.array(rs)}


W1 = (0.6, 0.7, 0.85, 1.0)
W2 = (0.45, 0.5, 0.65, 0.75)
W1E = (0.6, 0.7, 0.85, 1.02)          # the same start, almost the same end
W1S = (0.58, 0.7, 0.85, 1.0)
W3 = (1.0, 1.2, 1.45, 1.6)


def _expect(env, ws, rs, step, irr=None, scale=1.0, coef=COEF):
    ws = [w * scale for w in ws]
    xs = grid(ws[0], ws[-1], step)
    rr = [lagrange(ws, rs, x) for x in xs]
    ee = [_poly(coef, x) if irr is None else irr(x) for x in xs]
    flux = trapz([a * b for a, b in zip(rr, ee)], xs)
    return flux, trapz(rr, xs)


def band(env, step, detector, scale=1.0, default=False):
    """Flux and irradiance of a band."""
    sun = env.mod("solar").SolarIrradianceSpectrum
    fn = spectrum(env)
    kw = {} if default else {"dlambda": step}
    s = sun(fn if env.bool("path") else str(fn), **kw)
    rs1, d1 = _resp(env, "a", W1)
    rs2, d2 = _resp(env, "b", W2)
    opt = {}
    if detector is None:
        rsr, rs, ws = d1, rs1, W1
    else:
        rsr = {"det-1": d1, "det-2": d2}
        rs, ws = (rs1, W1) if detector in (0, 1) else (rs2, W2)
        if detector:
            opt["detector"] = detector
    if scale != 1.0:
        for d in (d1, d2):
            d["wavelength"] = d["wavelength"] / scale
        opt["scale"] = scale
    snap = env.snapshot(d1["wavelength"], d1["response"], d2["wavelength"], d2["response"])
    flux, width = _expect(env, ws, rs, step)
    got = s.inband_solarflux(rsr, **opt)
    env.assert_close("flux: the irradiance weighted with the response", [got], [flux], rtol=1e-6)
    got = s.inband_solarirradiance(rsr, **opt)
    env.assert_close("irradiance: the flux over the width of the response", [got * width], [flux], rtol=1e-6)
    env.assert_unchanged("the response is not modified", snap, [d1["wavelength"], d1["response"], d2["wavelength"], d2["response"]])


def history(env, step):
    """What was computed before does not matter."""
    sun = env.mod("solar").SolarIrradianceSpectrum
    s = sun(spectrum(env), dlambda=step)
    rs1, d1 = _resp(env, "a", W1)
    w2 = env.choice("band", [W3, W1E, W1S])
    rs2, d2 = _resp(env, "b", w2)
    first = env.choice("first", ["flux", "irradiance", "constant", "grid"])
    if first == "flux":
        s.inband_solarflux(d2)
    elif first == "irradiance":
        s.inband_solarirradiance(d2)
    elif first == "constant":
        s.solar_constant()
    else:
        s.interpolate(ival_wavelength=(0.5, 0.9))
    flux, width = _expect(env, W1, rs1, step)
    env.assert_close("flux: the irradiance weighted with the response", [s.inband_solarflux(d1)], [flux], rtol=1e-6)
    flux2, width2 = _expect(env, w2, rs2, step)
    env.assert_close("irradiance: the flux over the width of the response", [s.inband_solarirradiance(d2) * width2], [flux2], rtol=1e-6)
    env.assert_close("flux once more", [s.inband_solarflux(d1)], [flux], rtol=1e-6)
    env.assert_close("the spectrum is kept", s.wavelength, TAB, rtol=1e-12)
    env.assert_close("the spectrum is kept", s.irradiance, [_poly(COEF, x) for x in TAB], rtol=1e-9)


def scaling(env, step):
    """The flux is proportional to the response, the irradiance does not depend on its scale."""
    sun = env.mod("solar").SolarIrradianceSpectrum
    s = sun(spectrum(env), dlambda=step)
    rs, d = _resp(env, "a", W1)
    c = env.real("c", 0.25, 4.0)
    e = {"wavelength": d["wavelength"], "response": d["response"] * c}
    env.assert_close("flux is proportional to the response", [s.inband_solarflux(e)], [s.inband_solarflux(d) * c], rtol=1e-6)
    env.assert_close("irradiance does not depend on the scale", [s.inband_solarirradiance(e)], [s.inband_solarirradiance(d)], rtol=1e-6)


def constant(env):
    """A flat spectrum: the irradiance of every band is the one of the spectrum."""
    sun = env.mod("solar").SolarIrradianceSpectrum
    s = sun(spectrum(env, coef=(1500.0, 0.0, 0.0, 0.0)), dlambda=0.05)
    rs, d = _resp(env, "a", W1)
    env.assert_close("irradiance of a flat spectrum", [s.inband_solarirradiance(d)], [1500.0], rtol=1e-6)


def total(env, space):
    """The solar constant is the integral of the spectrum, in either space."""
    sun = env.mod("solar").SolarIrradianceSpectrum
    vals = [env.real("e%d" % i, 1.0, 2000.0) for i in range(4)]
    xs = [0.4, 0.5, 0.8, 1.6]
    fn = env.scratch / "sun.dat"
    s = sun(spectrum(env, tab=np.array(xs)), wavespace=space)
    base = [_poly(COEF, x) for x in xs]
    if space == "wavelength":
        env.assert_close("solar constant", [s.solar_constant()], [trapz(base, xs)], rtol=1e-9)
        env.assert_equal("units", s.units["flux"], "W/m^2")
        s.irradiance = env.array(vals)
        env.assert_close("solar constant", [s.solar_constant()], [trapz(vals, xs)], rtol=1e-9)
    else:
        wn = [1e4 / x for x in xs][::-1]
        conv = [v * x * x * 0.1 for v, x in zip(base, xs)][::-1]
        env.assert_close("wavenumbers", s.wavenumber, wn, rtol=1e-9)
        env.assert_close("irradiance per wavenumber", s.irradiance, conv, rtol=1e-9)
        env.assert_close("solar constant", [s.solar_constant()], [trapz(conv, wn)], rtol=1e-9)
        env.assert_equal("units", s.units["flux"], "mW/m^2")
        env.assert_true("no wavelengths left", s.wavelength is None)
        # the same for arbitrary irradiances
        t = sun(fn, wavespace="wavelength")
        t.irradiance = env.array(vals)
        t.convert2wavenumber()
        conv = [v * x * x * 0.1 for v, x in zip(vals, xs)][::-1]
        env.assert_close("irradiance per wavenumber", t.irradiance, conv, rtol=1e-9)
        env.assert_close("solar constant", [t.solar_constant()], [trapz(conv, wn)], rtol=1e-9)


def wavenumber(env, step):
    """Bands in wavenumber space; the tabulated spectrum is arbitrary at 4 points, its spline the cubic through them."""
    sun = env.mod("solar").SolarIrradianceSpectrum
    xs = [0.5, 0.8, 1.25, 2.0]
    s = sun(spectrum(env, tab=np.array(xs)), wavespace="wavenumber", dlambda=step)
    wn = [1e4 / x for x in xs][::-1]
    conv = [_poly(COEF, x) * x * x * 0.1 for x in xs][::-1]
    ws = (8000.0, 9000.0, 10000.0, 12000.0)
    rs, d = _resp(env, "a", ws)
    rsr = {"wavenumber": d["wavelength"], "response": d["response"]}
    kw = {}
    detectors = env.choice("detectors", ["none", "one", "first", "second"])
    if detectors == "one":
        rsr = {"det-1": rsr}
    elif detectors != "none":
        ws2 = (6000.0, 6800.0, 7600.0, 9000.0)
        rs2, d2 = _resp(env, "b", ws2)
        rsr = {"det-1": rsr, "det-2": {"wavenumber": d2["wavelength"], "response": d2["response"]}}
        if detectors == "second":
            kw["detector"] = 2
            ws, rs = ws2, rs2
    flux, width = _expect(env, ws, rs, step, irr=lambda x: lagrange(wn, conv, x))
    env.assert_close("flux in wavenumber space", [s.inband_solarflux(rsr, **kw)], [flux], rtol=1e-6)
    env.assert_close("irradiance in wavenumber space", [s.inband_solarirradiance(rsr, **kw) * width], [flux], rtol=1e-6)


def resample(env, step):
    """The spectrum on a regular grid."""
    sun = env.mod("solar").SolarIrradianceSpectrum
    s = sun(spectrum(env), dlambda=step)
    a = env.choice("a", [0.45, 0.6])
    b = env.choice("b", [0.9, 1.4])
    whole = env.bool("whole")
    if whole:
        s.interpolate()
        a, b = TAB[0], TAB[-1]
    else:
        s.interpolate(ival_wavelength=(a, b))
    xs = grid(a, b, step)
    env.assert_close("regular grid", s.ipol_wavelength, xs, rtol=1e-9)
    env.assert_close("interpolated irradiance", s.ipol_irradiance, [_poly(COEF, x) for x in xs], rtol=1e-6)


def resample_wn(env):
    """The same in wavenumber space, also with the default step of 2 cm-1; the spline of a spectrum of four points is its cubic."""
    sun = env.mod("solar").SolarIrradianceSpectrum
    xs = [0.97, 0.98, 0.985, 1.0]
    irr = [env.real("e%d" % i, 1.0, 2000.0) for i in range(4)]
    fn = env.scratch / "sun.dat"
    fn.write_text("".join(env.text(x, e) + "\n" for x, e in zip(xs, irr)), encoding="utf-8")
    how = env.choice("how", ["default", "given", "later"])
    s = sun(fn, wavespace="wavenumber", **({"dlambda": 20.0} if how == "given" else {}))
    kw = {"dlambda": 20.0} if how == "later" else {}
    wn = [1e4 / x for x in xs][::-1]
    a, b = wn[0], wn[-1]
    if env.bool("part"):
        a, b = 10100.0, 10200.0
        kw["ival_wavelength"] = (a, b)
    s.interpolate(**kw)
    conv = [v * x * x * 0.1 for v, x in zip(irr, xs)][::-1]
    grd = grid(a, b, 2.0 if how == "default" else 20.0)
    env.assert_close("regular grid", s.ipol_wavelength, grd, rtol=1e-9)
    env.assert_close("interpolated irradiance", s.ipol_irradiance, [lagrange(wn, conv, x) for x in grd], rtol=1e-6, atol=1e-4)


def arbitrary(env, step, space):
    """A spectrum file with any four irradiances in it, whose spline is the cubic through them."""
    sun = env.mod("solar").SolarIrradianceSpectrum
    xs = [0.5, 0.8, 1.25, 2.0]
    irr = [env.real("e%d" % i, 1.0, 2000.0) for i in range(4)]
    fn = env.scratch / "sun.dat"
    fn.write_text("".join(env.text(x, e) + "\n" for x, e in zip(xs, irr)), encoding="utf-8")
    s = sun(fn, wavespace=space, dlambda=step)
    if space == "wavenumber":
        irr = [v * x * x * 0.1 for v, x in zip(irr, xs)][::-1]
        xs = [1e4 / x for x in xs][::-1]
        ws, key = (8000.0, 9000.0, 10000.0, 12000.0), "wavenumber"
    else:
        ws, key = (0.6, 0.75, 0.9, 1.2), "wavelength"
    env.assert_close("the spectrum of the file", getattr(s, key), xs, rtol=1e-9)
    env.assert_close("the spectrum of the file", s.irradiance, irr, rtol=1e-9)
    env.assert_close("solar constant", [s.solar_constant()], [trapz(irr, xs)], rtol=1e-9)
    rs, d = _resp(env, "a", ws)
    rsr = {key: d["wavelength"], "response": d["response"]}
    flux, width = _expect(env, ws, rs, step, irr=lambda x: lagrange(xs, irr, x))
    env.assert_close("flux: the irradiance weighted with the response", [s.inband_solarflux(rsr)], [flux], rtol=1e-6)
    env.assert_close("irradiance: the flux over the width of the response", [s.inband_solarirradiance(rsr) * width], [flux], rtol=1e-6)


def standard(env):
    """The spectrum that comes with the package."""
    s = env.mod("solar").SolarIrradianceSpectrum()
    env.assert_close("solar constant of the standard spectrum", [s.solar_constant()], [1366.1], rtol=2e-3)
    w = env.flat(s.wavelength)
    env.assert_true("wavelengths increase", all(a < b for a, b in zip(w[:-1], w[1:])))
    rs, d = _resp(env, "a", (0.55, 0.6, 0.65, 0.7))
    c = env.real("c", 0.25, 4.0)
    e = {"wavelength": d["wavelength"], "response": d["response"] * c}
    env.assert_close("flux is proportional to the response", [s.inband_solarflux(e)], [s.inband_solarflux(d) * c], rtol=1e-6)


def configs(tier):
    out = []
    for det in (None, 0, 1, 2):
        out.append(Cfg("band-%s" % det, band, dict(step=0.05, detector=det), must_reach=["flux: the irradiance weighted with the response"]))
    out.append(Cfg("band-coarse", band, dict(step=0.1, detector=None), must_reach=["flux: the irradiance weighted with the response"]))
    out.append(Cfg("band-default", band, dict(step=0.005, detector=None, default=True),
                   must_reach=["flux: the irradiance weighted with the response"], budget=120))
    out.append(Cfg("band-scale", band, dict(step=0.05, detector=2, scale=1e6), must_reach=["flux: the irradiance weighted with the response"]))
    out.append(Cfg("history", history, dict(step=0.05), must_reach=["flux once more"]))
    out.append(Cfg("scaling", scaling, dict(step=0.05), must_reach=["flux is proportional to the response"]))
    out.append(Cfg("flat", constant, must_reach=["irradiance of a flat spectrum"]))
    for space in ("wavelength", "wavenumber"):
        out.append(Cfg("total-%s" % space, total, dict(space=space), must_reach=["solar constant"]))
    for step in (100.0, 200.0):
        out.append(Cfg("wavenumber-%d" % step, wavenumber, dict(step=step), must_reach=["flux in wavenumber space"]))
    out.append(Cfg("arbitrary", arbitrary, dict(step=0.05, space="wavelength"), must_reach=["irradiance: the flux over the width of the response"]))
    out.append(Cfg("arbitrary-wavenumber", arbitrary, dict(step=200.0, space="wavenumber"),
                   must_reach=["irradiance: the flux over the width of the response"]))
    out.append(Cfg("resample", resample, dict(step=0.05), must_reach=["interpolated irradiance"]))
    out.append(Cfg("resample-wavenumber", resample_wn, must_reach=["interpolated irradiance"]))
    out.append(Cfg("standard", standard, must_reach=["flux is proportional to the response"]))
    if tier == "thorough":
        out.append(Cfg("band-fine", band, dict(step=0.002, detector=2), must_reach=["flux: the irradiance weighted with the response"],
                       budget=900))
    return out
