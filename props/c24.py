"""C24: data are fetched only when they are out of date and only when that is allowed."""
import numpy as np

from props.common import Cfg
from props.netlib import Net, Response, tarball

ASSUMPTIONS = ["version files that are missing, empty, up to date, older, newer, longer or with blanks and further lines; every setting of "
               "the permission; all aerosol types; the network is a stand-in that records what is fetched"]
RSR_URL = "https://zenodo.org/records/19373017/files/pyspectral_rsr_data.tgz"
LUT_URL = "https://zenodo.org/record/1288441/files/pyspectral_atm_correction_luts_%s.tgz"
AEROSOLS = {"antarctic_aerosol": "AA", "continental_average_aerosol": "CAA", "continental_clean_aerosol": "CCA",
            "continental_polluted_aerosol": "CPA", "desert_aerosol": "DA", "marine_clean_aerosol": "MCA", "marine_polluted_aerosol": "MPA",
            "marine_tropical_aerosol": "MTA", "rayleigh_only": "RO", "rural_aerosol": "RA", "urban_aerosol": "UA"}
LUT_VERSION = "v1.0.1"


def _version(env, path, version):
    """A version file; whether it says that version."""
    kind = env.choice("version", ["missing", "empty", "exact", "blanks", "newline", "lines", "older", "longer", "shorter", "second", "case"])
    text = {"missing": None, "empty": "", "exact": version, "blanks": "  %s \t" % version, "newline": version + "\n",
            "lines": version + "\nsomething else\n", "older": "v0.9.0\n", "longer": version + "1", "shorter": version[:-1],
            "second": "v0.0.1\n%s\n" % version, "case": version.upper()}[kind]
    if text is not None:
        path.write_text(text)
    return kind in ("exact", "blanks", "newline", "lines")


def _det(env):
    return {"wavelength": np.array([0.5, 0.6, 0.7]), "response": np.array([0.1, 1.0, 0.2]), "central_wavelength": env.real("cw", 0.5, 0.7)}


def _allow(env):
    a = env.choice("allow", ["true", "false", "absent"])
    conf = {"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "tb2rad_dir": str(env.lut_dir)}
    if a != "absent":
        conf["download_from_internet"] = a == "true"
    env.set_config(conf)
    return a == "true"


def rsr_reader(env, how):
    """Spectral responses."""
    utils, reader = env.mod("utils"), env.mod("rsr_reader")
    env.write_rsr("Imaginary-1", "someinst", {"ch1": {"det-1": _det(env)}}, uptodate=False)
    vf = env.rsr_dir / "PYSPECTRAL_RSR_VERSION"
    fresh = _version(env, vf, utils.RSR_DATA_VERSION)
    allowed = _allow(env)
    before = vf.read_text() if vf.exists() else None
    ball = tarball({"PYSPECTRAL_RSR_VERSION": utils.RSR_DATA_VERSION, "extra.txt": "content"})
    net = Net(lambda url: Response(ball))
    dest = env.rsr_dir
    dry = False
    with net.online():
        if how == "reader":
            r = reader.RelativeSpectralResponse("Imaginary-1", "someinst")
            env.assert_true("the responses are read", "ch1" in r.rsr)
        elif how == "filename":
            reader.RelativeSpectralResponse(filename=env.rsr_dir / "rsr_someinst_Imaginary-1.h5")
        else:
            dry = env.bool("dry")
            kw = {}
            if dry or env.bool("say"):
                kw["dry_run"] = dry
            if env.bool("dest"):
                dest = env.scratch / "elsewhere"
                dest.mkdir()
                kw["dest_dir"] = dest if env.bool("path") else str(dest)
            if how == "check":
                reader.check_and_download(**kw)
            else:
                obj = reader.RelativeSpectralResponse(filename=env.rsr_dir / "rsr_someinst_Imaginary-1.h5")
                got = obj.download_rsr_updates(**kw)
                env.assert_true("tells whether an update is needed", bool(got) == (not fresh))
    if how == "filename":
        env.assert_equal("nothing is fetched for a file", net.calls, [])
        return
    if fresh or not allowed or dry:
        env.assert_equal("nothing is fetched", net.calls, [])
        env.assert_true("nothing is written", (vf.read_text() if vf.exists() else None) == before
                        and not (dest / "extra.txt").exists())
        return
    env.assert_equal("the archive is fetched once", net.calls, [RSR_URL])
    env.assert_true("the archive is unpacked", (dest / "extra.txt").exists() and (dest / "extra.txt").read_text() == "content")
    env.assert_equal("the version is the one of the archive", (dest / "PYSPECTRAL_RSR_VERSION").read_text(), utils.RSR_DATA_VERSION)
    env.assert_true("the archive is removed", not list(dest.glob("*.tgz")) and not list(env.rsr_dir.glob("*.tgz")))
    if dest == env.rsr_dir:
        with net.online():
            reader.check_and_download()
            reader.RelativeSpectralResponse("Imaginary-1", "someinst")
        env.assert_equal("what is up to date is not fetched again", len(net.calls), 1)


def rsr_direct(env):
    """download_rsr fetches whatever the version, unless it is a dry run."""
    utils = env.mod("utils")
    _version(env, env.rsr_dir / "PYSPECTRAL_RSR_VERSION", utils.RSR_DATA_VERSION)
    net = Net(lambda url: Response(tarball({"PYSPECTRAL_RSR_VERSION": utils.RSR_DATA_VERSION, "extra.txt": "content"})))
    dry = env.bool("dry")
    dest = env.rsr_dir
    kw = {"dry_run": dry} if dry or env.bool("say") else {}
    if env.bool("dest"):
        dest = env.scratch / "elsewhere"
        dest.mkdir()
        kw["dest_dir"] = dest
    with net.online():
        utils.download_rsr(**kw)
    env.assert_equal("what is fetched", net.calls, [] if dry else [RSR_URL])
    env.assert_true("what is unpacked", (dest / "extra.txt").exists() == (not dry))


def _url(aerosol):
    return LUT_URL % ("no_aerosol" if aerosol == "rayleigh_only" else aerosol)


def _serve(url):
    for a, short in AEROSOLS.items():
        if url == _url(a):
            return Response(tarball({"PYSPECTRAL_ATM_CORR_LUT_" + short: LUT_VERSION, "of.txt": a}))
    return Response(b"", status=404)


def luts(env, how, types):
    """Look-up tables of the atmospheric correction."""
    rayleigh, utils = env.mod("rayleigh"), env.mod("utils")
    ae = env.choice("aerosol", types)
    d = env.ray_dir / ae
    d.mkdir(parents=True)
    vf = d / ("PYSPECTRAL_ATM_CORR_LUT_" + AEROSOLS[ae])
    fresh = _version(env, vf, LUT_VERSION)
    allowed = _allow(env)
    before = vf.read_text() if vf.exists() else None
    net = Net(_serve)
    dry = False
    with net.online():
        if how == "class":
            rayleigh.Rayleigh("Imaginary-1", "someinst", aerosol_type=ae)
        else:
            dry = env.bool("dry")
            rayleigh.check_and_download(dry_run=dry, aerosol_types=[ae])
    fetch = not fresh and not dry and (allowed or how != "class")
    if not fetch:
        env.assert_equal("nothing is fetched", net.calls, [])
        env.assert_true("nothing is written", (vf.read_text() if vf.exists() else None) == before and not (d / "of.txt").exists())
    else:
        env.assert_equal("the archive is fetched once", net.calls, [_url(ae)])
        env.assert_equal("the archive is unpacked in the directory of the aerosol type", (d / "of.txt").read_text(), ae)
        env.assert_equal("the version is the one of the archive", vf.read_text(), LUT_VERSION)
        env.assert_true("the archive is removed", not list(env.ray_dir.rglob("*.tgz")))
        with net.online():
            rayleigh.check_and_download(aerosol_types=[ae])
            rayleigh.Rayleigh("Imaginary-1", "someinst", aerosol_type=ae)
        env.assert_equal("what is up to date is not fetched again", len(net.calls), 1)


def some(env):
    """Of several types, those that are out of date."""
    rayleigh = env.mod("rayleigh")
    types = list(AEROSOLS)
    fresh = []
    for a in types:
        if env.bool(a + ".fresh") if a in types[3:7] else types.index(a) % 2:
            (env.ray_dir / a).mkdir(parents=True)
            (env.ray_dir / a / ("PYSPECTRAL_ATM_CORR_LUT_" + AEROSOLS[a])).write_text(LUT_VERSION)
            fresh.append(a)
    ask = env.choice("ask", ["all", "none", "some"])
    wanted = types if ask != "some" else types[2:6]
    net = Net(_serve)
    with net.online():
        if ask == "none":
            rayleigh.check_and_download()
        else:
            rayleigh.check_and_download(aerosol_types=wanted)
    env.assert_equal("what is out of date is fetched, each once", sorted(net.calls), sorted(_url(a) for a in wanted if a not in fresh))
    for a in types:
        got = (env.ray_dir / a / "of.txt")
        env.assert_true("each in its own directory", got.exists() == (a in wanted and a not in fresh))
        if got.exists():
            env.assert_equal("each in its own directory", got.read_text(), a)


def luts_direct(env):
    """download_luts: what is asked for, all types by default."""
    import warnings
    utils = env.mod("utils")
    how = env.choice("how", ["default", "list", "old-string", "old-list"])
    a, b = env.choice("pair", [("rayleigh_only", "desert_aerosol"), ("urban_aerosol", "marine_clean_aerosol")])
    dry = env.bool("dry")
    kw = {"dry_run": True} if dry else {}
    if how == "list":
        kw["aerosol_types"] = [a, b]
    elif how == "old-string":
        kw["aerosol_type"] = a
    elif how == "old-list":
        kw["aerosol_type"] = [a, b]
    net = Net(_serve)
    before = sorted(p.name for p in env.ray_dir.iterdir())
    with net.online(), warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        utils.download_luts(**kw)
    if dry:
        env.assert_equal("a dry run writes nothing", sorted(p.name for p in env.ray_dir.iterdir()), before)
    want = {"default": list(AEROSOLS), "list": [a, b], "old-string": [a], "old-list": [a, b]}[how]
    env.assert_equal("what is fetched", sorted(net.calls), [] if dry else sorted(_url(x) for x in want))
    env.assert_true("the old argument is deprecated", any("deprecated" in str(x.message) for x in w) == how.startswith("old"))
    for x in AEROSOLS:
        env.assert_true("what is unpacked", (env.ray_dir / x / "of.txt").exists() == (x in want and not dry))


def defaults(env):
    """The settings that come with the package allow downloads; the default aerosol type is marine and clean."""
    rayleigh = env.mod("rayleigh")
    _allow_ = {"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "download_from_internet": True}
    env.set_config(_allow_)
    net = Net(_serve)
    with net.online():
        rayleigh.Rayleigh("Imaginary-1", "someinst")
    env.assert_equal("the default type is fetched", net.calls, [_url("marine_clean_aerosol")])


def configs(tier):
    out = [Cfg("rsr-%s" % how, rsr_reader, dict(how=how),
               must_reach=["nothing is fetched for a file"] if how == "filename" else ["nothing is fetched", "the archive is fetched once"])
           for how in ("reader", "filename", "check", "method")]
    out.append(Cfg("rsr-direct", rsr_direct, must_reach=["what is fetched"]))
    ts = list(AEROSOLS)
    for how in ("class", "check"):
        for i in range(0, len(ts), 4):
            out.append(Cfg("luts-%s-%d" % (how, i), luts, dict(how=how, types=ts[i:i + 4]), must_reach=["the archive is fetched once"]))
    out.append(Cfg("luts-some", some, must_reach=["what is out of date is fetched, each once"]))
    out.append(Cfg("luts-direct", luts_direct, must_reach=["what is fetched"]))
    out.append(Cfg("defaults", defaults, must_reach=["the default type is fetched"]))
    return out
