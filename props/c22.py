"""C22: a spectral response is identified by a file, or by platform and instrument, and by nothing else."""
from pathlib import Path

import numpy as np

from props.common import Cfg

ASSUMPTIONS = ["every combination of platform, instrument and file name given or not, existing or not; 1-3 files with arbitrary content"]


def _det(env, name):
    return {"wavelength": np.array([0.5, 0.6, 0.7]), "response": np.array([0.1, 1.0, 0.2]), "central_wavelength": env.real(name, 0.5, 0.7)}


def arguments(env):
    """Which combinations of arguments are accepted."""
    det = _det(env, "cw")
    fn = env.write_rsr("Imaginary-1", "someinst", {"ch1": {"det-1": det}})
    RSR = env.mod("rsr_reader").RelativeSpectralResponse
    p, i, f = env.bool("platform"), env.bool("instrument"), env.bool("filename")
    kw = {}
    if p:
        kw["platform_name"] = "Imaginary-1"
    if i:
        kw["instrument"] = "someinst"
    if f:
        kw["filename"] = fn if env.bool("path") else str(fn)
    ok = (f and not p and not i) or (p and i and not f)
    if not ok:
        env.assert_true("contradicting or missing arguments are refused", env.raises(ValueError, RSR, **kw))
        return
    r = RSR(**kw)
    env.assert_close("the response of the file", [r.rsr["ch1"]["det-1"]["central_wavelength"]], [det["central_wavelength"]])
    env.assert_equal("platform", r.platform_name, "Imaginary-1")
    env.assert_equal("instrument", r.instrument, "someinst")
    env.assert_equal("file name", Path(r.filename), Path(fn))


def which(env):
    """Of several files, the one of the platform and instrument."""
    sats = [("Imaginary-1", "someinst"), ("Imaginary-1", "otherinst"), ("Imaginary-11", "someinst"), ("NOAA-19", "avhrr3"),
            ("Meteosat-10", "seviri")]
    dets = {s: _det(env, "cw%d" % k) for k, s in enumerate(sats)}
    for s in sats:
        env.write_rsr(s[0], s[1], {"ch1": {"det-1": dets[s]}})
    s = env.choice("sat", sats)
    given = s[1] if s[1] != "avhrr3" else "avhrr/3"
    r = env.mod("rsr_reader").RelativeSpectralResponse(s[0], given)
    env.assert_close("the response of that file", [r.rsr["ch1"]["det-1"]["central_wavelength"]], [dets[s]["central_wavelength"]])
    env.assert_equal("file name", Path(r.filename).name, "rsr_%s_%s.h5" % (s[1], s[0]))
    env.assert_equal("directory", Path(r.filename).parent, Path(env.rsr_dir))


def missing(env):
    """A file that is not there."""
    env.write_rsr("Imaginary-1", "someinst", {"ch1": {"det-1": _det(env, "cw")}})
    RSR = env.mod("rsr_reader").RelativeSpectralResponse
    kind = env.choice("kind", ["file", "platform", "instrument", "directory", "download", "elsewhere"])
    if kind == "file":
        env.assert_true("a missing file is reported", env.raises(FileNotFoundError, RSR, filename=env.rsr_dir / "nosuch.h5"))
    elif kind == "elsewhere":
        d = env.scratch / "else"
        d.mkdir()
        name = "rsr_someinst_Imaginary-1.h5"
        given = env.choice("given", [d / name, str(d / name), name, Path(name), "./" + name, "", "rsr_someinst_Imaginary-1"])
        import os
        cwd = os.getcwd()
        try:
            os.chdir(d)
            env.assert_true("a file of the same name elsewhere is not it", env.raises(FileNotFoundError, RSR, filename=given))
        finally:
            os.chdir(cwd)
    elif kind == "directory":
        env.assert_true("a directory is not a file", env.raises(FileNotFoundError, RSR, filename=env.rsr_dir))
    elif kind == "platform":
        p = env.string("p", 3, "AB-1", minlen=1)
        env.assert_true("a missing file is reported", env.raises(FileNotFoundError, RSR, p, "someinst"))
    elif kind == "instrument":
        i = env.string("i", 3, "abC", minlen=1)
        env.assert_true("a missing file is reported", env.raises(FileNotFoundError, RSR, "Imaginary-1", i))
    else:
        try:
            RSR("Imaginary-2", "someinst")
            env.assert_true("a missing file is reported", False)
        except FileNotFoundError as e:
            env.assert_true("a missing file is reported", "rsr_someinst_Imaginary-2.h5" in str(e))


def location(env):
    """The directory of the configuration, with the home directory expanded."""
    import os
    det = _det(env, "cw")
    kind = env.choice("kind", ["absolute", "home", "other"])
    old = os.environ.get("HOME")
    try:
        os.environ["HOME"] = str(env.scratch / "home")
        d = {"absolute": env.scratch / "deep" / "er", "home": env.scratch / "home" / "mine", "other": env.scratch / "o ther"}[kind]
        conf = {"absolute": str(d), "home": "~/mine", "other": str(d)}[kind]
        d.mkdir(parents=True)
        env.set_config({"rsr_dir": conf, "rayleigh_dir": str(env.ray_dir), "download_from_internet": False})
        env.rsr_dir = d
        env.write_rsr("Imaginary-1", "someinst", {"ch1": {"det-1": det}})
        r = env.mod("rsr_reader").RelativeSpectralResponse("Imaginary-1", "someinst")
        env.assert_close("the response of the file", [r.rsr["ch1"]["det-1"]["central_wavelength"]], [det["central_wavelength"]])
        env.assert_equal("directory", Path(r.filename).parent, d)
        env.assert_equal("directory", Path(r.rsr_dir), d)
    finally:
        if old is None:
            del os.environ["HOME"]
        else:
            os.environ["HOME"] = old


def independent(env):
    """Two readers do not share what they read."""
    det = _det(env, "cw")
    env.write_rsr("Imaginary-1", "someinst", {"ch1": {"det-1": det}})
    RSR = env.mod("rsr_reader").RelativeSpectralResponse
    a = RSR("Imaginary-1", "someinst")
    if env.bool("convert"):
        a.convert()
    else:
        a.rsr["ch1"]["det-1"]["response"][0] = 9.0
        a.rsr["ch1"]["det-1"]["central_wavelength"] = 3.0
        a.band_names.append("x")
    b = RSR("Imaginary-1", "someinst")
    env.assert_close("the response of the file", b.rsr["ch1"]["det-1"]["response"], [0.1, 1.0, 0.2], rtol=1e-6)
    env.assert_close("the response of the file", [b.rsr["ch1"]["det-1"]["central_wavelength"]], [det["central_wavelength"]])
    env.assert_close("the response of the file", b.rsr["ch1"]["det-1"]["wavelength"], [0.5, 0.6, 0.7], rtol=1e-6)
    env.assert_equal("bands", list(b.band_names), ["ch1"])


def configs(tier):
    return [Cfg("arguments", arguments, must_reach=["contradicting or missing arguments are refused", "the response of the file"]),
            Cfg("which", which, must_reach=["the response of that file"]),
            Cfg("missing", missing, must_reach=["a missing file is reported"]),
            Cfg("location", location, must_reach=["the response of the file"]),
            Cfg("independent", independent, must_reach=["the response of the file"])]
