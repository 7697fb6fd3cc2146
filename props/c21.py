"""C21: spectral responses are read, and written, as they are."""
import numpy as np

from props.common import F64, Cfg
from props.rsrlib import sym_det, trapz

ASSUMPTIONS = ["files of 1-3 bands with 1-3 detectors of 2-3 points, arbitrary wavelengths in [0.05, 20000] micrometre and responses, in "
               "any of the layouts and attribute types that the files have, wavelength scales of 1, 1e-6, 1e-9 and arbitrary"]


def _write(env, bands, layout, scale, platform="Imaginary-1", inst="someinst", strings="str", attrs=None, fn=None, ndet=True):
    """A file in one of the layouts: everything per detector, or shared by the detectors of a band."""
    utils = env.mod("utils")
    (env.rsr_dir / utils.RSR_DATA_VERSION_FILENAME).write_text(utils.RSR_DATA_VERSION)
    fn = fn or env.rsr_dir / ("rsr_%s_%s.h5" % (inst, platform))

    def s(x):
        return {"str": x, "bytes": np.bytes_(x), "array": np.array([x.encode()]), "0d": np.array(x.encode()),
                "object": np.array([x], dtype=object) if not env.h5_real else np.array([x.encode()])}[strings]
    with env.h5(fn, "w") as h:
        h.attrs["description"] = s("Some responses")
        h.attrs["platform_name"] = s(platform)
        h.attrs["sensor"] = s(inst)
        h.attrs["band_names"] = list(bands) if strings in ("str", "object") else np.array([b.encode() for b in bands])
        for k, v in (attrs or {}).items():
            if v is None:
                del h.attrs[k]
            else:
                h.attrs[k] = v
        for b, dets in bands.items():
            g = h.create_group(b)
            if ndet:
                g.attrs["number_of_detectors"] = len(dets)
            first = dets["det-1"]
            if layout in ("shared", "band"):
                ds = g.create_dataset("wavelength", data=first["wavelength"] * (1e-6 / scale))
                ds.attrs["scale"] = scale
                ds.attrs["unit"] = "m"
            if layout == "band":
                g.create_dataset("response", data=first["response"])
                g.attrs["central_wavelength"] = first["central_wavelength"]
                continue
            for d, r in dets.items():
                dg = g.create_group(d)
                dg.attrs["central_wavelength"] = r["central_wavelength"]
                dg.create_dataset("response", data=r["response"])
                if layout == "detector":
                    ds = dg.create_dataset("wavelength", data=r["wavelength"] * (1e-6 / scale))
                    ds.attrs["scale"] = scale
                    ds.attrs["unit"] = "m"
    return fn


def _bands(env, spec, shared=False, lo=0.3, hi=15.0):
    out = {}
    for b, nd, n in spec:
        out[b] = {}
        for d in range(1, nd + 1):
            det = sym_det(env, "%s.%d" % (b, d), n, lo, hi, cw=env.real("%s.%d.c" % (b, d), lo, hi))
            if shared and d > 1:
                det["wavelength"], det["ws"] = out[b]["det-1"]["wavelength"], out[b]["det-1"]["ws"]
            out[b]["det-%d" % d] = det
    return out


def _compare(env, r, bands, per_detector=True):
    env.assert_equal("bands", list(r.band_names), list(bands))
    env.assert_equal("bands of the responses", sorted(r.rsr.keys()), sorted(bands))
    for b in bands:
        env.assert_equal("detectors", sorted(r.rsr[b].keys()), sorted(bands[b]))
        for d in bands[b]:
            src = bands[b][d if per_detector else "det-1"]
            e = r.rsr[b][d]
            env.assert_close("wavelengths in micrometre", e["wavelength"], src["ws"], rtol=1e-6)
            env.assert_close("responses", e["response"], src["rs"], rtol=1e-6, atol=1e-9)
            env.assert_close("central wavelength", [e["central_wavelength"]], [src["central_wavelength"]], rtol=1e-9)


def read(env, spec, layout, scale, strings="str", by="name", lo=0.3, hi=15.0):
    bands = _bands(env, spec, shared=layout != "detector", lo=lo, hi=hi)
    if scale == "sym":
        scale = env.real("scale", 0.001, 2000.0) * 1e-6
    fn = _write(env, bands, layout, scale, strings=strings, ndet=layout != "band" or max(s[1] for s in spec) > 1)
    RSR = env.mod("rsr_reader").RelativeSpectralResponse
    if by == "name":
        r = RSR("Imaginary-1", "someinst")
    elif by == "path":
        r = RSR(filename=fn)
    else:
        r = RSR(filename=str(fn))
    env.assert_equal("platform", r.platform_name, "Imaginary-1")
    env.assert_equal("instrument", r.instrument, "someinst")
    env.assert_equal("description", r.description, "Some responses")
    env.assert_equal("unit", r.unit, "1e-6 m")
    env.assert_close("scale to SI units", [r.si_scale], [1e-6])
    _compare(env, r, bands, per_detector=layout != "band")
    r2 = RSR(filename=fn)
    _compare(env, r2, bands, per_detector=layout != "band")


def metadata(env):
    """Platform and instrument of a file that names them in the old way, or not at all."""
    bands = _bands(env, [("ch1", 1, 2)])
    kind = env.choice("kind", ["platform-number", "oscar", "oscar-eos", "none", "nosensor", "nosensor-list", "nosensor-unknown"])
    attrs, want_p, want_i = {}, None, "someinst"
    if kind == "platform-number":
        n = env.choice("number", [7, 8, 19])
        attrs = {"platform_name": None, "platform": np.bytes_("noaa") if env.bool("bytes") else "noaa", "sat_number": n}
        want_p = "noaa-%d" % n
    elif kind == "oscar":
        n = env.choice("number", [8, 9, 10, 11])
        attrs = {"platform_name": None, "platform": "meteosat", "sat_number": n}
        want_p = "Meteosat-%d" % n
    elif kind == "oscar-eos":
        attrs = {"platform_name": "eos-2"}
        want_p = "EOS-Aqua"
    elif kind == "none":
        attrs = {"platform_name": None}
    elif kind == "nosensor":
        p, i = env.choice("sat", [("Meteosat-9", "seviri"), ("NOAA-19", "avhrr/3"), ("Terra", "modis"), ("FY-3D", "mersi-2")])
        attrs = {"platform_name": p, "sensor": None}
        want_p, want_i = p, i
    elif kind == "nosensor-list":
        attrs = {"platform_name": "meteosat-10", "sensor": None}
        want_p, want_i = "Meteosat-10", "seviri"
    else:
        attrs = {"platform_name": "Imaginary-3", "sensor": None}
        want_p, want_i = "Imaginary-3", None
    fn = _write(env, bands, "detector", 1e-6, attrs=attrs)
    r = env.mod("rsr_reader").RelativeSpectralResponse(filename=fn)
    env.assert_true("platform", r.platform_name == want_p, "got %r, expected %r" % (r.platform_name, want_p))
    env.assert_true("instrument", r.instrument == want_i, "got %r, expected %r" % (r.instrument, want_i))
    _compare(env, r, bands)


ALIASES = {
    "someinst": {"1": "ch1", "2": "ch2", "36": "ch36", "C07": "ch7", "VIS006": "VIS0.6", "IR_039": "IR3.9", "M05": "M5", "I04": "I4",
                 "HRV": "HRV", "IR_134": "IR13.4", "WV_062": "IR6.2"},
    "abi": {"C01": "ch1", "C16": "ch16", "7": "ch7"},
    "ahi": {"B07": "ch7", "B16": "ch16", "C03": "ch3"},
    "ami": {"VI004": "ch1", "SW038": "ch7", "IR133": "ch16"},
    "fci": {"vis_04": "VIS0.4", "ir_38": "IR3.8_HR", "vis_06": "VIS0.6_HR", "ir_133": "IR13.3"},
    "slstr": {"S7": "ch7", "F1": "ch7", "F2": "ch8", "S9": "ch9"},
    "modis": {"1": "1", "36": "36"},
    "seviri": {"IR_108": "IR10.8", "VIS008": "VIS0.8", "IR_016": "NIR1.6"},
    "viirs": {"M01": "M1", "I05": "I5"},
    "agri": {"C14": "ch14"}}


def aliases(env, inst):
    """A band is found under its other names, and under no others."""
    table = ALIASES[inst]
    alias = env.choice("alias", sorted(table))
    std = table[alias]
    det = sym_det(env, "d", 2, 0.3, 15.0, concrete=[0.5, 0.6])
    odd = {"wavelength": np.array([0.5, 0.6]), "response": np.array([0.25, 0.75]), "central_wavelength": 0.55}
    env.write_rsr("Imaginary-1", inst, {std: {"det-1": det}, "odd": {"det-1": odd}})
    rsr = env.mod("rsr_reader").RelativeSpectralResponse("Imaginary-1", inst).rsr
    env.assert_close("by its own name", rsr[std]["det-1"]["response"], det["rs"], rtol=1e-9, atol=1e-12)
    env.assert_close("by its other name", rsr[alias]["det-1"]["response"], det["rs"], rtol=1e-9, atol=1e-12)
    env.assert_close("get by its other name", rsr.get(alias)["det-1"]["response"], det["rs"], rtol=1e-9, atol=1e-12)
    env.assert_close("get by its own name", rsr.get(std, None)["det-1"]["response"], det["rs"], rtol=1e-9, atol=1e-12)
    env.assert_close("the other band", rsr["odd"]["det-1"]["response"], [0.25, 0.75])
    env.assert_true("unknown names are refused", env.raises(KeyError, lambda: rsr["nosuchband"]))
    env.assert_true("unknown names get the default", rsr.get("nosuchband") is None and rsr.get("nosuchband", 7) == 7)
    missing = "ch12" if std != "ch12" else "ch11"
    env.assert_true("a known name of a band that is not there is refused", env.raises(KeyError, lambda: rsr[missing]))
    env.assert_true("a known name of a band that is not there is refused", env.raises(KeyError, lambda: rsr["12" if std != "ch12" else "11"])
                    or inst == "modis")
    s = env.string("name", 3, "xyz")
    env.assert_true("any other name is refused", env.raises(KeyError, lambda: rsr[s]))
    env.assert_true("any other name gets the default", rsr.get(s, 3) == 3)


def precedence(env):
    """The name of a band in the file goes before its meaning as another name."""
    a = sym_det(env, "a", 2, 0.3, 15.0, concrete=[0.5, 0.6])
    b = sym_det(env, "b", 2, 0.3, 15.0, concrete=[0.5, 0.6])
    env.write_rsr("Imaginary-1", "someinst", {"1": {"det-1": a}, "ch1": {"det-1": b}})
    rsr = env.mod("rsr_reader").RelativeSpectralResponse("Imaginary-1", "someinst").rsr
    env.assert_close("the band of that name", rsr["1"]["det-1"]["response"], a["rs"], rtol=1e-9, atol=1e-12)
    env.assert_close("the band of the other name", rsr["ch1"]["det-1"]["response"], b["rs"], rtol=1e-9, atol=1e-12)
    env.assert_close("get the band of that name", rsr.get("1")["det-1"]["response"], a["rs"], rtol=1e-9, atol=1e-12)


def roundtrip(env, ndet, nb, scale, inst="some/inst", platform="Imaginary-1", old=False):
    """What convert2hdf5 writes, the reader reads."""
    names = ["ch%d" % i for i in range(1, nb + 1)]
    unit = {1e-6: 1.0, 1e-9: 1000.0}[scale]
    data = {}
    for b in names:
        ws = [env.real("%s.w%d" % (b, i), 0.3, 15.0) for i in range(3)]
        for u, v in zip(ws[:-1], ws[1:]):
            env.assume(u + 0.1 < v)
        data[b] = {}
        for d in range(1, ndet + 1):
            rs = [env.real("%s.%d.r%d" % (b, d, i), -0.05 if i != 1 else 0.3, 1.5) for i in range(3)]
            data[b]["det-%d" % d] = {"ws": ws, "rs": rs, "wavelength": env.array(ws), "response": env.array(rs)}
    out = env.rsr_dir
    multi = ndet > 1

    class Raw:
        def __init__(self, bandname, platform_name):
            self.instrument = inst
            self.output_dir = str(out)
            self.rsr = {d: {"wavelength": r["wavelength"] * unit, "response": r["response"]} for d, r in data[bandname].items()}
            if not multi:
                self.rsr = self.rsr["det-1"]
    utils = env.mod("utils")
    kw = {} if scale == 1e-6 else {"scale": scale}
    if multi:
        kw["detectors"] = sorted(data[names[0]])
    fn = out / ("rsr_%s_%s.h5" % (inst.replace("/", ""), platform))
    if old:         # conversions replace the file of an earlier one
        fn.parent.mkdir(parents=True, exist_ok=True)
        h5 = env.h5(fn, "w")
        h5.attrs["platform_name"] = "Old-1"
        h5.attrs["band_names"] = ["old"]
        h5.create_group("ch1").attrs["number_of_detectors"] = 7
        h5.close()
    utils.convert2hdf5(Raw, platform, names, **kw)
    env.assert_true("the file is named after instrument and platform", fn.exists())
    r = env.mod("rsr_reader").RelativeSpectralResponse(filename=fn)
    env.assert_equal("platform", r.platform_name, platform)
    env.assert_equal("instrument", r.instrument, inst)
    env.assert_true("description", inst.upper() in r.description)
    env.assert_equal("bands", list(r.band_names), names)
    for b in names:
        env.assert_equal("detectors", sorted(r.rsr[b].keys()), sorted(data[b]))
        for d, src in data[b].items():
            e = r.rsr[b][d]
            env.assert_close("wavelengths survive", e["wavelength"], src["ws"], rtol=1e-5)
            env.assert_close("responses survive", e["response"], src["rs"], rtol=1e-5, atol=1e-7)
            den = trapz(src["rs"], src["ws"])
            num = trapz([x * y for x, y in zip(src["rs"], src["ws"])], src["ws"])
            env.assert_close("central wavelength survives", [e["central_wavelength"] * den], [num], rtol=1e-6)


def padded(env, ndet):
    """Raw data padded with NaN wavelengths: the central wavelength is the one of the valid points."""
    ws = [env.real("w%d" % i, 0.3, 15.0) for i in range(3)]
    for u, v in zip(ws[:-1], ws[1:]):
        env.assume(u + 0.1 < v)
    pad = env.choice("pad", ["first", "last", "both"])
    nan = float("nan")

    def put(x, fill):
        return env.array(([fill] if pad in ("first", "both") else []) + x + ([fill] if pad in ("last", "both") else []))
    dets = {"det-%d" % (d + 1): [env.real("d%d.r%d" % (d, i), 0.1, 1.5) for i in range(3)] for d in range(ndet)}

    class Raw:
        def __init__(self, bandname, platform_name):
            self.instrument = "slstr"
            self.output_dir = str(env.rsr_dir)
            self.rsr = {d: {"wavelength": put(list(ws), nan), "response": put(list(r), 0.7)} for d, r in dets.items()}
            if ndet == 1:
                self.rsr = self.rsr["det-1"]
    env.mod("utils").convert2hdf5(Raw, "Sentinel-3A", ["ch1"], **({"detectors": sorted(dets)} if ndet > 1 else {}))
    r = env.mod("rsr_reader").RelativeSpectralResponse(filename=str(env.rsr_dir / "rsr_slstr_Sentinel-3A.h5"))
    env.assert_equal("instrument", r.instrument, "slstr")
    for d, rs in dets.items():
        for key in ("ch1", "S1"):
            den, num = trapz(rs, ws), trapz([x * y for x, y in zip(rs, ws)], ws)
            env.assert_close("central wavelength survives", [r.rsr[key][d]["central_wavelength"] * den], [num], rtol=1e-6)


def text(env):
    """Strings from files: str, bytes or arrays of one of them."""
    utils = env.mod("utils")
    s = env.string("s", 3, "aZ-/0")
    env.assert_true("a string stays", utils.convert2str(s) == s and utils.np2str(s) == s and utils.bytes2string(s) == s)
    t = env.choice("t", ["", "a", "Some text", "NOAA-19", "\u00e5\u00e4\u00f6"])
    kind = env.choice("kind", ["bytes", "npbytes", "npstr", "1bytes", "1str", "1object", "0d", "2d"])
    if kind in ("1bytes", "0d") and not t:
        return
    v = {"bytes": t.encode("utf-8"), "npbytes": np.bytes_(t.encode("utf-8")), "npstr": np.str_(t), "1bytes": np.array([t.encode("utf-8")]),
         "1str": np.array([t]), "1object": np.array([t], dtype=object), "0d": np.array(t.encode("utf-8")), "2d": np.array([[t]])}[kind]
    env.assert_equal("converted to a string", utils.convert2str(v), t)
    env.assert_true("a plain string", isinstance(utils.convert2str(v), str))
    bad = env.choice("bad", ["two", "numbers", "number", "none", "list"])
    w = {"two": np.array([b"a", b"b"]), "numbers": np.array([1.0]), "number": 3, "none": None, "list": ["a"]}[bad]
    env.assert_true("what is not one string is refused", env.raises(ValueError, utils.convert2str, w))


def configs(tier):
    out = []
    spec = [("ch1", 2, 2), ("IR3.9", 1, 3)]
    for layout in ("detector", "shared"):
        for scale in (1.0, 1e-6, 1e-9, "sym"):
            out.append(Cfg("read-%s-%s" % (layout, scale), read, dict(spec=spec, layout=layout, scale=scale), must_reach=["responses"],
                           bounds="2 bands, 1-2 detectors"))
        for lo, hi in ((0.05, 0.3), (15.0, 20000.0)):
            out.append(Cfg("read-%s-%s-%s" % (layout, lo, hi), read, dict(spec=spec, layout=layout, scale="sym", lo=lo, hi=hi),
                           must_reach=["responses"], bounds="wavelengths in [%s, %s] micrometre" % (lo, hi)))
    out.append(Cfg("read-band-far", read, dict(spec=[("ch1", 1, 3), ("2", 1, 2)], layout="band", scale="sym", lo=15.0, hi=20000.0),
                   must_reach=["responses"]))
    out.append(Cfg("read-band", read, dict(spec=[("ch1", 1, 3), ("2", 1, 2)], layout="band", scale=1e-6), must_reach=["responses"]))
    out.append(Cfg("read-band-dets", read, dict(spec=[("ch1", 2, 2)], layout="band", scale=1e-6), must_reach=["responses"]))
    for strings in ("bytes", "array", "0d", "object"):
        out.append(Cfg("read-%s" % strings, read, dict(spec=spec, layout="detector", scale=1e-6, strings=strings), must_reach=["platform"]))
    for by in ("path", "string"):
        out.append(Cfg("read-by-%s" % by, read, dict(spec=spec, layout="detector", scale=1e-6, by=by), must_reach=["responses"]))
    out.append(Cfg("read-10", read, dict(spec=[("ch1", 11, 2), ("ch10", 1, 2), ("ch2", 3, 2)], layout="detector", scale=1e-6),
                   must_reach=["responses"], bounds="11 detectors"))
    out.append(Cfg("metadata", metadata, must_reach=["platform"]))
    for inst in ALIASES:
        out.append(Cfg("aliases-%s" % inst, aliases, dict(inst=inst), must_reach=["by its other name"]))
    out.append(Cfg("precedence", precedence, must_reach=["the band of that name"]))
    for ndet in (1, 2):
        for scale in (1e-6, 1e-9):
            out.append(Cfg("roundtrip-%d-%s" % (ndet, scale), roundtrip, dict(ndet=ndet, nb=2, scale=scale),
                           must_reach=["responses survive"], bounds="2 bands of 3 points"))
    out.append(Cfg("text", text, must_reach=["converted to a string"]))
    for ndet in (1, 2):
        out.append(Cfg("padded-%d" % ndet, padded, dict(ndet=ndet), must_reach=["central wavelength survives"], bounds="1 band, 3 points"))
    out.append(Cfg("roundtrip-slstr", roundtrip, dict(ndet=1, nb=1, scale=1e-6, inst="slstr", platform="Sentinel-3A"), must_reach=["responses survive"]))
    out.append(Cfg("roundtrip-again", roundtrip, dict(ndet=2, nb=1, scale=1e-6, old=True), must_reach=["responses survive"]))
    if tier == "thorough":
        out.append(Cfg("roundtrip-4", roundtrip, dict(ndet=4, nb=4, scale=1e-9), must_reach=["responses survive"]))
        out.append(Cfg("read-big", read, dict(spec=[("ch%d" % i, 4, 6) for i in range(1, 6)], layout="detector", scale="sym"),
                       must_reach=["responses"]))
    return out
