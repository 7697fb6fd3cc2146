"""C17: a band is found by a wavelength near its centre, and only then."""
import numpy as np

from props.common import Cfg

ASSUMPTIONS = ["1-4 bands with arbitrary central wavelengths in [0.3, 15] micrometre, tolerances in [0, 3] micrometre; "
               "wavelengths exactly at the tolerance are decided on a grid of 1/64 micrometre only"]
# other names of bands, per instrument (the instrument has a table of its own or uses the generic one)
SETS = {"someinst": (["1", "2", "5", "weird"], ["ch1", "ch2", "ch5", "weird"]),
        "modis": (["1", "20", "31", "36"], ["1", "20", "31", "36"]),
        "seviri": (["VIS006", "IR_039", "IR10.8", "HRV"], ["VIS0.6", "IR3.9", "IR10.8", "HRV"]),
        "abi": (["ch1", "C07", "ch13", "1"], ["ch1", "ch7", "ch13", "1"]),
        "viirs": (["M05", "I4", "M16", "DNB"], ["M5", "I4", "M16", "DNB"]),
        "avhrr-3": (["1", "3b", "ch4", "5"], ["ch1", "ch3b", "ch4", "ch5"])}


def _rsr(names, cws, extra=True):
    d = {}
    for i, (n, c) in enumerate(zip(names, cws)):
        d[n] = {"det-1": {"central_wavelength": c}}
        if extra:
            d[n]["det-2"] = {"central_wavelength": c + 0.0625 * (i + 1)}
    return d


def _expect(env, cws, wl, eps, std, exact):
    found = []
    for c, s in zip(cws, std):
        dist = abs(c - wl)
        near = env.lt(dist, eps, exact=True) if exact else env.lt(dist, eps, gap=1e-9)
        close = env.lt(dist, 2.0, exact=True) if exact else env.lt(dist, 2.0, gap=1e-9)
        if near and close:
            found.append(s)
    return found


def lookup(env, sensor, n, default, exact=False, multi=None):
    names, std = SETS[sensor]
    names, std = names[:n], std[:n]
    if exact:
        val = lambda nm, lo, hi: env.int(nm, int(lo * 64), int(hi * 64)) * (1.0 / 64)   # noqa: E731
    else:
        val = env.real
    cws = [val("c%d" % i, 0.3, 15.0) for i in range(n)]
    wl = val("wl", 0.3, 15.0)
    utils = env.mod("utils")
    f = utils.get_bandname_from_wavelength
    rsr = _rsr(names, cws)
    kw = {}
    if default:
        eps = 0.1
    else:
        eps = val("eps", 0.0, 3.0)
        kw["epsilon"] = eps
    want = _expect(env, cws, wl, eps, std, exact)
    many = env.bool("many") if multi is None else multi
    if many:
        kw["multiple_bands"] = True
    if len(want) > 1 and not many:
        env.assert_true("ambiguous wavelengths are refused", env.raises(AttributeError, f, sensor, wl, rsr, **kw))
        return
    got = f(sensor, wl, rsr, **kw)
    if not want:
        env.assert_true("no band near", got is None, "got %r" % (got,))
    elif len(want) == 1:
        env.assert_equal("the band near", got, want[0])
    else:
        env.assert_equal("all bands near", list(got), want)


def method(env, sensor, platform):
    """The same from a file."""
    std = SETS[sensor][1]
    cws = [env.real("c%d" % i, 0.3, 15.0) for i in range(2)]
    bands = {}
    for n, c in zip(std[:2], cws):        # files hold the standard names
        bands[n] = {"det-1": {"wavelength": np.array([0.5, 0.6, 0.7]), "response": np.array([0.1, 1.0, 0.2]), "central_wavelength": c},
                    "det-2": {"wavelength": np.array([0.5, 0.6, 0.7]), "response": np.array([0.1, 1.0, 0.2]), "central_wavelength": 0.33}}
    env.write_rsr(platform, sensor, bands)
    r = env.mod("rsr_reader").RelativeSpectralResponse(platform, sensor)
    wl = env.real("wl", 0.3, 15.0)
    default = env.bool("default")
    eps = 0.1 if default else env.real("eps", 0.01, 3.0)
    want = _expect(env, cws, wl, eps, std, False)
    kw = {} if default else {"epsilon": eps}
    many = env.bool("many")
    if many:
        kw["multiple_bands"] = True
    if len(want) > 1 and not many:
        env.assert_true("ambiguous wavelengths are refused", env.raises(AttributeError, r.get_bandname_from_wavelength, wl, **kw))
        return
    got = r.get_bandname_from_wavelength(wl, **kw)
    if not want:
        env.assert_true("no band near", got is None, "got %r" % (got,))
    elif len(want) == 1:
        env.assert_equal("the band near", got, want[0])
        env.assert_close("the name found names the band", [r.rsr[got]["det-1"]["central_wavelength"]],
                         [cws[std.index(want[0])]], rtol=1e-9)
    else:
        env.assert_equal("all bands near", list(got), want)


def configs(tier):
    out = []
    for sensor in SETS:
        out.append(Cfg("lookup-%s" % sensor, lookup, dict(sensor=sensor, n=2, default=False), must_reach=["the band near", "no band near"],
                       bounds="2 bands"))
    for n in (1, 3):
        out.append(Cfg("default-%d" % n, lookup, dict(sensor="someinst", n=n, default=True), must_reach=["the band near"],
                       bounds="%d bands" % n))
        out.append(Cfg("lookup-%d" % n, lookup, dict(sensor="abi", n=n, default=False), must_reach=["the band near"], bounds="%d bands" % n))
    for many in (False, True):
        out.append(Cfg("exact-%s" % many, lookup, dict(sensor="seviri", n=2, default=False, exact=True, multi=many),
                       must_reach=["the band near"], bounds="2 bands, grid of 1/64"))
    for sensor, platform in (("someinst", "Imaginary-1"), ("modis", "EOS-Aqua"), ("seviri", "Meteosat-10")):
        out.append(Cfg("method-%s" % sensor, method, dict(sensor=sensor, platform=platform), must_reach=["the band near"], bounds="2 bands"))
    if tier == "thorough":
        for sensor in SETS:
            out.append(Cfg("lookup4-%s" % sensor, lookup, dict(sensor=sensor, n=4, default=False), must_reach=["the band near"], budget=900,
                           bounds="4 bands"))
    return out
