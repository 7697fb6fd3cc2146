"""C15: spectral responses in wavenumber space describe the same responses as in wavelength space."""
import numpy as np

from props.common import Cfg
from props.rsrlib import sym_det, trapz

ASSUMPTIONS = ["1-3 bands of 1-2 detectors, 1-4 points per detector with arbitrary increasing wavelengths in [0.3, 15] micrometre and "
               "arbitrary responses in [0, 1]"]
LO, HI = 0.3, 15.0


def _dets(env, spec, resp=0.0, symw=True):
    out, raw = {}, {}
    for b, nd, n in spec:
        out[b], raw[b] = {}, {}
        for d in range(1, nd + 1):
            det = sym_det(env, "%s.%d" % (b, d), n, LO, HI, respmin=resp, concrete=None if symw else np.linspace(2 + d, 9 - d, n))
            out[b]["det-%d" % d] = det
    return out


def _plain(dets, form):
    """What a user hands over: wavelength, response and the central wavelength."""
    out = {}
    for b in dets:
        out[b] = {}
        for d, det in dets[b].items():
            e = {"wavelength": det["wavelength"], "central_wavelength": det["central_wavelength"]}
            if form == "dict":
                e["response"] = {"fov-1": det["response"], "fov-2": det["response"] * 0.5}
            else:
                e["response"] = det["response"]
            out[b][d] = e
    return out


def function(env, spec, form):
    """convert2wavenumber of a set of bands."""
    dets = _dets(env, spec)
    rsr = _plain(dets, form)
    snap = [env.snapshot(dets[b][d]["wavelength"], dets[b][d]["response"]) for b in dets for d in dets[b]]
    got, info = env.mod("utils").convert2wavenumber(rsr)
    env.assert_equal("unit", info["unit"], "cm-1")
    env.assert_close("scale to SI units", [info["si_scale"]], [100.0])
    env.assert_equal("bands", sorted(got.keys()), sorted(dets.keys()))
    for b in dets:
        env.assert_equal("detectors", sorted(got[b].keys()), sorted(dets[b].keys()))
        for d, det in dets[b].items():
            want = [1e4 / w for w in det["ws"]][::-1]
            env.assert_close("wavenumbers", got[b][d]["wavenumber"], want, rtol=1e-9)
            env.assert_true("no wavelengths left", "wavelength" not in got[b][d])
            if form == "dict":
                env.assert_equal("response names", sorted(got[b][d]["response"].keys()), ["fov-1", "fov-2"])
                env.assert_close("responses", got[b][d]["response"]["fov-1"], det["rs"][::-1], rtol=1e-9, atol=1e-12)
                env.assert_close("responses", got[b][d]["response"]["fov-2"], [r * 0.5 for r in det["rs"][::-1]], rtol=1e-9, atol=1e-12)
            else:
                env.assert_close("responses", got[b][d]["response"], det["rs"][::-1], rtol=1e-9, atol=1e-12)
            w = env.flat(got[b][d]["wavenumber"])
            for a, c in zip(w[:-1], w[1:]):
                env.assert_lt("wavenumbers increase", a, c)
    k = 0
    for b in dets:
        for d in dets[b]:
            env.assert_unchanged("responses in wavelength space are left as they were", snap[k],
                                 [rsr[b][d]["wavelength"], dets[b][d]["response"]])
            env.assert_true("the input keeps its keys", sorted(rsr[b][d].keys()) == ["central_wavelength", "response", "wavelength"])
            k += 1


def already(env, n, mixed):
    """Detectors that are in wavenumber space stay as they are."""
    wn = [env.real("wn%d" % i, 500.0, 3000.0) for i in range(n)]
    for a, b in zip(wn[:-1], wn[1:]):
        env.assume(a + 1.0 < b)
    rs = [env.real("r%d" % i, 0.0, 1.0) for i in range(n)]
    rsr = {"ch1": {"det-1": {"wavenumber": env.array(wn), "response": env.array(rs)}}}
    if mixed:
        det = sym_det(env, "d2", n, 3.0, 14.0)
        rsr["ch1"]["det-2"] = {"wavelength": det["wavelength"], "response": det["response"]}
    keys = {d: sorted(rsr["ch1"][d]) for d in rsr["ch1"]}
    snap = env.snapshot(rsr["ch1"]["det-1"]["wavenumber"], rsr["ch1"]["det-1"]["response"])
    got, info = env.mod("utils").convert2wavenumber(rsr)
    env.assert_equal("the input keeps its keys", {d: sorted(rsr["ch1"][d]) for d in rsr["ch1"]}, keys)
    env.assert_unchanged("the input is left as it was", snap, [rsr["ch1"]["det-1"]["wavenumber"], rsr["ch1"]["det-1"]["response"]])
    env.assert_true("the result is another set of responses", got["ch1"]["det-1"] is not rsr["ch1"]["det-1"])
    env.assert_close("wavenumbers are kept", got["ch1"]["det-1"]["wavenumber"], wn, rtol=1e-12)
    env.assert_close("responses are kept", got["ch1"]["det-1"]["response"], rs, rtol=1e-12, atol=1e-15)
    if mixed:
        env.assert_close("the other detector is converted", got["ch1"]["det-2"]["wavenumber"],
                         [1e4 / w for w in det["ws"]][::-1], rtol=1e-9)
        env.assert_close("the other detector is converted", got["ch1"]["det-2"]["response"], det["rs"][::-1], rtol=1e-9, atol=1e-12)
    again, _ = env.mod("utils").convert2wavenumber(got)
    env.assert_close("converting twice changes nothing", again["ch1"]["det-1"]["wavenumber"], wn, rtol=1e-12)
    env.assert_close("converting twice changes nothing", again["ch1"]["det-1"]["response"], rs, rtol=1e-12, atol=1e-15)


def reader(env, spec, symw):
    """RelativeSpectralResponse.convert."""
    dets = _dets(env, spec, resp=0.01, symw=symw)
    env.write_rsr("Imaginary-1", "someinst", dets)
    RSR = env.mod("rsr_reader").RelativeSpectralResponse
    r = RSR("Imaginary-1", "someinst")
    env.assert_equal("unit before", r.unit, "1e-6 m")
    env.assert_close("scale before", [r.si_scale], [1e-6])
    r.convert()
    env.assert_equal("unit", r.unit, "cm-1")
    env.assert_close("scale to SI units", [r.si_scale], [100.0])
    env.assert_equal("bands", sorted(r.rsr.keys()), sorted(dets.keys()))
    for b in dets:
        env.assert_equal("detectors", sorted(r.rsr[b].keys()), sorted(dets[b].keys()))
        for d, det in dets[b].items():
            e = r.rsr[b][d]
            want = [1e4 / w for w in det["ws"]][::-1]
            env.assert_close("wavenumbers", e["wavenumber"], want, rtol=1e-9)
            env.assert_close("responses", e["response"], det["rs"][::-1], rtol=1e-9, atol=1e-12)
            env.assert_true("no wavelengths left", "wavelength" not in e)
            rr = det["rs"][::-1]
            num = trapz([a * w for a, w in zip(rr, want)], want)
            env.assert_close("central wavenumber", [e["central_wavenumber"] * trapz(rr, want)], [num], rtol=1e-7)
    env.assert_true("wavenumbers are not converted back", env.raises(NotImplementedError, r.convert))
    b = spec[0][0]
    env.assert_close("a refused conversion changes nothing", r.rsr[b]["det-1"]["wavenumber"],
                     [1e4 / w for w in dets[b]["det-1"]["ws"]][::-1], rtol=1e-9)
    env.assert_equal("a refused conversion changes nothing", r.unit, "cm-1")
    fresh = RSR("Imaginary-1", "someinst")
    env.assert_close("another reader is in wavelength space", fresh.rsr[b]["det-1"]["wavelength"], dets[b]["det-1"]["ws"], rtol=1e-6)
    env.assert_equal("another reader is in wavelength space", fresh.unit, "1e-6 m")


def configs(tier):
    out = []
    for form in ("array", "dict"):
        for name, spec in (("1x1", [("ch1", 1, 3)]), ("2x2", [("ch1", 2, 2), ("ch2", 1, 3)]), ("one", [("ch1", 1, 1)])):
            out.append(Cfg("function-%s-%s" % (form, name), function, dict(spec=spec, form=form), must_reach=["wavenumbers"],
                           bounds=str(spec)))
    for mixed in (False, True):
        out.append(Cfg("already-%s" % mixed, already, dict(n=3, mixed=mixed), must_reach=["wavenumbers are kept"]))
    out.append(Cfg("reader-1x1", reader, dict(spec=[("ch1", 1, 2)], symw=True), must_reach=["central wavenumber"]))
    out.append(Cfg("reader-2x2", reader, dict(spec=[("ch1", 2, 3), ("IR3.9", 1, 4)], symw=False), must_reach=["central wavenumber"]))
    out.append(Cfg("reader-3", reader, dict(spec=[("1", 1, 3), ("2", 2, 3), ("ch3b", 1, 3)], symw=False),
                   must_reach=["central wavenumber"]))
    if tier == "thorough":
        out.append(Cfg("reader-sym-3", reader, dict(spec=[("ch1", 1, 3)], symw=True), must_reach=["central wavenumber"], budget=600))
        out.append(Cfg("function-wide", function, dict(spec=[("ch%d" % i, 2, 4) for i in range(1, 5)], form="array"),
                       must_reach=["wavenumbers"]))
    return out
