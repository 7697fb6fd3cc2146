"""C29: the command line programs."""
import re

import numpy as np

from props.c24 import AEROSOLS, LUT_VERSION, RSR_URL, _serve, _url, _version
from props.common import Cfg
from props.netlib import Net, Response, tarball
from props.rsrlib import sym_det, trapz

ASSUMPTIONS = ["download_rsr.py, download_atm_correction_luts.py and find_wavelengths_for_satpy.py with every combination of their options; "
               "responses of 3-4 samples, 1-2 bands and detectors, any threshold between 0 and 0.9; the network is a stand-in"]


def rsr(env):
    utils = env.mod("utils")
    vf = env.rsr_dir / "PYSPECTRAL_RSR_VERSION"
    fresh = _version(env, vf, utils.RSR_DATA_VERSION)
    allowed = env.bool("allowed")
    env.set_config({"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "download_from_internet": allowed})
    net = Net(lambda url: Response(tarball({"PYSPECTRAL_RSR_VERSION": utils.RSR_DATA_VERSION, "extra.txt": "content"})))
    argv = []
    dry = env.bool("dry")
    if dry:
        argv.append(env.choice("spelling", ["-d", "--dry_run"]))
    dest = env.rsr_dir
    if env.bool("destination"):
        dest = env.scratch / "elsewhere"
        dest.mkdir()
        argv += [env.choice("option", ["-o", "--destination"]), str(dest)]
    if env.bool("verbose"):
        argv.append("-v")
    with net.online():
        env.program("bin/download_rsr.py", *argv)
    fetch = not fresh and allowed and not dry
    env.assert_equal("the responses are fetched when needed", net.calls, [RSR_URL] if fetch else [])
    env.assert_true("they are unpacked in the destination", (dest / "extra.txt").exists() == fetch)
    if dest != env.rsr_dir:
        env.assert_true("and nowhere else", not (env.rsr_dir / "extra.txt").exists())


def luts(env):
    types = list(AEROSOLS)
    fresh = []
    for a in types[:4]:
        if env.bool(a):
            (env.ray_dir / a).mkdir(parents=True)
            (env.ray_dir / a / ("PYSPECTRAL_ATM_CORR_LUT_" + AEROSOLS[a])).write_text(LUT_VERSION)
            fresh.append(a)
    wanted = env.choice("wanted", [None, types[:1], types[1:3], types[3:5]])
    argv = []
    dry = env.bool("dry")
    if dry:
        argv.append("-d")
    if wanted is not None:
        argv += [env.choice("option", ["-a", "--aerosol_types"])] + wanted
    net = Net(_serve)
    with net.online():
        env.program("bin/download_atm_correction_luts.py", *argv)
    want = [] if dry else [a for a in (types if wanted is None else wanted) if a not in fresh]
    env.assert_equal("the tables that are out of date are fetched", sorted(net.calls), sorted(_url(a) for a in want))
    for a in types:
        env.assert_true("each in its own directory", (env.ray_dir / a / "of.txt").exists() == (a in want))


def ranges(env, n, thr, symw):
    """The wavelength ranges as printed, to three digits."""
    dets = {}
    ws = [0.5 + 0.06 * i for i in range(n)] if not symw else None
    for b in ("ch1", "ch2"):
        dets[b] = {d: sym_det(env, "%s.%s" % (b, d), n, 0.4, 1.2, respmin=0.0, concrete=ws) for d in ("det-1", "det-2")}
    env.write_rsr("Imaginary-1", "someinst", dets)
    argv = ["Imaginary-1", "someinst"]
    t = 0.15
    if thr:
        t = env.real("t", 0.0, 0.9)
        argv += ["-r", env.text(t)]
    bands = ["ch1", "ch2"]
    if env.bool("band"):
        bands = [env.choice("which", bands)]
        argv += ["-b", bands[0]]
    det = "det-1"
    if env.bool("detector"):
        det = "det-2"
        argv += ["-d", det]
    want = []
    for b in bands:
        rs, xs = dets[b][det]["rs"], dets[b][det]["ws"]
        env.assume(rs[1] > 0.95)
        idx = [i for i in range(n) if env.gt(rs[i], t, gap=1e-5)]
        want.append((xs[idx[0]], trapz([a * c for a, c in zip(rs, xs)], xs) / trapz(rs, xs), xs[idx[-1]]))
    out = env.program("bin/find_wavelengths_for_satpy.py", *argv)
    got = re.findall(r"name:\s*(\S+)\s*wavelength:\s*\[([^\]]*)\]", out)
    env.assert_equal("each band is listed", [g[0] for g in got], bands)
    for (_, text), (lo, mid, hi) in zip(got, want):
        vals = [env.number(x.strip()) for x in text.split(",")]
        env.assert_equal("minimum, centre and maximum", len(vals), 3)
        env.assert_close("the first wavelength above the threshold", [vals[0]], [lo], rtol=1e-6, atol=5.1e-4)
        env.assert_close("the central wavelength", [vals[1]], [mid], rtol=1e-6, atol=5.1e-4)
        env.assert_close("the last wavelength above the threshold", [vals[2]], [hi], rtol=1e-6, atol=5.1e-4)


def configs(tier):
    out = [Cfg("rsr", rsr, must_reach=["they are unpacked in the destination"]),
           Cfg("luts", luts, must_reach=["each in its own directory"])]
    for n, thr, symw in ((3, False, True), (4, False, False), (3, True, False)):
        out.append(Cfg("ranges-%d-%s" % (n, "any" if thr else "default"), ranges, dict(n=n, thr=thr, symw=symw),
                       must_reach=["the last wavelength above the threshold"]))
    if tier == "thorough":
        out.append(Cfg("ranges-5", ranges, dict(n=5, thr=True, symw=False), must_reach=["the last wavelength above the threshold"], budget=600))
    return out
