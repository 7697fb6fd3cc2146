"""C27: the testing utilities isolate what runs inside them and leave everything as it was."""
import contextlib
import gc
import os
import tempfile
from pathlib import Path

import numpy as np

from props.common import Cfg
from props.netlib import Fault, Net
from props.raylib import grid

ASSUMPTIONS = ["up to 2 nested overrides, left normally or by an exception; 2 symbolic central wavelengths in [0.3, 14] micrometre under "
               "their standard names or aliases; symbolic look-up tables of 2x2x2x2 reflectances in [0, 1]; directories given "
               "(absolute or relative) or not; iterables of types as lists, tuples, sets or generators"]


class Boom(Exception):
    pass


@contextlib.contextmanager
def world(env):
    """Temporary files in the scratch directory, a network that only records, the environment put back."""
    old, tmp, cwd = os.environ.get("PSP_CONFIG_FILE"), tempfile.tempdir, os.getcwd()
    tempfile.tempdir = str(env.scratch / "tmp")
    net = Net(lambda url: Fault("no network here"))
    try:
        os.chdir(env.scratch / "home")
        with net.online():
            yield net
    finally:
        os.chdir(cwd)
        tempfile.tempdir = tmp
        if old is None:
            os.environ.pop("PSP_CONFIG_FILE", None)
        else:
            os.environ["PSP_CONFIG_FILE"] = old


def run(env, cm, body, boom):
    """Use a context manager and leave it as told."""
    try:
        with cm as v:
            body(v)
            if boom:
                raise Boom()
    except Boom:
        assert boom
    else:
        assert not boom
    del cm
    gc.collect()


def leftovers(env, label="temporary files are removed"):
    env.assert_equal(label, sorted(p.name for p in (env.scratch / "tmp").iterdir()), [])


OPTIONS = [None, {}, {"mark": 1, "download_from_internet": True}, {"Imaginary-1-x": {"lut": {"a": "b"}}, "lst": [1, "2", None]}]


def override(env, depth):
    """Inside: exactly the given options, or the given file. Afterwards: what was there before."""
    t, config = env.mod("testing"), env.mod("config")
    with world(env):
        start = env.choice("start", ["unset", "file", "nowhere", "empty"])
        if start == "unset":
            os.environ.pop("PSP_CONFIG_FILE", None)
        elif start == "nowhere":
            os.environ["PSP_CONFIG_FILE"] = "/nosuch/file.yaml"
        elif start == "empty":
            os.environ["PSP_CONFIG_FILE"] = ""
        before = os.environ.get("PSP_CONFIG_FILE")
        dirs = {k: str(env.scratch / "home" / k) for k in ("rsr_dir", "rayleigh_dir")}
        boom = env.choice("exception", ["none", "inside", "middle"][:depth + 1])

        def check(want):
            c = config.get_config()
            env.assert_equal("exactly the given options", c, want)

        def level(n):
            kind = env.choice("kind%d" % n, ["options", "path"])
            opts = dict(OPTIONS[env.choice("opts%d" % n, [0, 1, 2, 3])] or {}, **dirs)
            if kind == "options":
                cm = t.override_config(config_options=opts)
                given = None
            else:
                import yaml
                given = env.scratch / "home" / ("given%d.yaml" % n)
                given.write_text(yaml.safe_dump(opts))
                cm = t.override_config(config_path=given if env.bool("aspath") else str(given))
            here = os.environ.get("PSP_CONFIG_FILE")

            def body(path):
                env.assert_equal("the path of the configuration", os.environ.get("PSP_CONFIG_FILE"), str(path))
                if given:
                    env.assert_equal("the given file", str(path), str(given))
                check(opts)
                if n < depth - 1:
                    level(n + 1)
                    check(opts)
                elif boom == "inside":
                    raise Boom()
                if n == 0 and boom == "middle":
                    raise Boom()
            try:
                with cm as path:
                    body(path)
            finally:
                env.assert_equal("the variable is what it was", os.environ.get("PSP_CONFIG_FILE"), here)
                if given:
                    env.assert_true("a given file is kept", given.is_file() and yaml.safe_load(given.read_text()) == opts)
        try:
            level(0)
            env.assert_equal("exceptions are passed on", boom, "none")
        except Boom:
            env.assert_true("exceptions come from inside", boom != "none")
        env.assert_equal("everything as before", os.environ.get("PSP_CONFIG_FILE"), before)
        gc.collect()
        leftovers(env)


def _pick_dir(env, name):
    """A directory of the user (absolute, relative, not yet there) or none."""
    k = env.choice(name, ["none", "new", "existing", "relative"])
    if k == "none":
        return None
    if k == "relative":
        return Path("rel_" + name)
    p = env.scratch / "home" / name
    if k == "existing":
        p.mkdir()
        (p / "keep").write_text("kept")
    return p


def _kept(env, p):
    if p is not None:
        env.assert_true("given directories are kept", p.is_dir())
        if p.is_absolute() and (p / "keep").exists():
            env.assert_equal("what is in them as well", (p / "keep").read_text(), "kept")


NAMES = {"viirs": ("Suomi-NPP", "viirs", {"M04": "M4", "M4": "M4", "I01": "I1"}, "M5"),
         "avhrr": ("NOAA-19", "avhrr/3", {"1": "ch1", "ch1": "ch1", "ch2": "ch2"}, "ch4"),
         "seviri": ("Meteosat-10", "seviri", {"IR_039": "IR3.9", "IR3.9": "IR3.9", "VIS006": "VIS0.6"}, "IR13.4"),
         "generic": ("Imaginary-1", "someinst", {"C01": "ch1", "ch1": "ch1", "C02": "ch2"}, "ch5"),
         "modis": ("EOS-Aqua", "modis", {"1": "1", "31": "31", "20": "20"}, "5")}


def _real(env, label):
    """The real file is read again."""
    r = env.mod("rsr_reader").RelativeSpectralResponse("Imaginary-9", "someinst")
    env.assert_close(label, [r.rsr["ch1"]["det-1"]["central_wavelength"]], [0.6125])


def _write_real(env):
    env.write_rsr("Imaginary-9", "someinst", {"ch1": {"det-1": {"wavelength": np.array([0.55, 0.6, 0.7]), "response": np.array([0.1, 1.0, 0.2]),
                                                                "central_wavelength": 0.6125}}})


def rsr(env, api, inst):
    """Fake spectral responses with the given central wavelengths, without downloads."""
    t, rd = env.mod("testing"), env.mod("rsr_reader")
    _write_real(env)
    platform, instrument, names, other = NAMES[inst]
    with world(env) as net:
        names = dict(names)
        first = env.choice("name", list(names))
        second = [n for n in names if names[n] != names[first]][0]
        cws = {first: env.real("c0", 0.3, 14.0), second: env.real("c1", 0.3, 14.0)}
        d = _pick_dir(env, "dir") if env.bool("kwdir") else None
        boom = env.bool("boom")
        used = []
        if api == "mock_rsr":
            cm = t.mock_rsr(rsr_dir=d, central_wavelengths=cws)
        elif api == "mock_tb_conversion":
            cm = t.mock_tb_conversion(tb2rad_dir=d, central_wavelengths=cws)
        else:
            cm = t.mock_pyspectral_downloads(tmp_path=d, rsr_files_kwargs={"central_wavelengths": cws})
        before = os.environ.get("PSP_CONFIG_FILE")

        def body(_):
            for _i in range(2):
                r = rd.RelativeSpectralResponse(platform, instrument)
                for n, c in cws.items():
                    for key in (n, names[n]):
                        det = r.rsr[key]["det-1"]
                        env.assert_close("central wavelength", [det["central_wavelength"]], [c])
                        w = det["wavelength"]
                        env.assert_true("a response for each wavelength", len(w) == len(det["response"]) and len(w) > 1)
                        env.assert_lt("wavelengths around the centre", w[0], c)
                        env.assert_lt("wavelengths around the centre ", c, w[-1])
                env.assert_true("the other bands", other in r.rsr and "det-1" in r.rsr[other])
                env.assert_true("bands of the instrument", set(names.values()) <= set(r.band_names))
            r9 = rd.RelativeSpectralResponse("Imaginary-9", "someinst")
            env.assert_true("no real file is read", r9.rsr["ch2"]["det-1"] is not None)
            used.append(Path(env.mod("config").get_config()["rsr_dir"]))
            env.assert_true("the directory is there", used[0].is_dir())
            env.assert_true("the real directory is not used", used[0] != env.rsr_dir)
            env.assert_true("downloads are not allowed", not env.mod("config").get_config()["download_from_internet"])
        run(env, cm, body, boom)
        env.assert_equal("nothing is fetched", net.calls, [])
        env.assert_equal("the configuration is what it was", os.environ.get("PSP_CONFIG_FILE"), before)
        _real(env, "the real file afterwards")
        _kept(env, d)
        leftovers(env)


def rsr_values(env):
    """return_value goes before side_effect, and that before central_wavelengths; versions."""
    t, rd = env.mod("testing"), env.mod("rsr_reader")
    _write_real(env)
    with world(env) as net:
        kw = {}
        info = {"platform_name": "P", "instrument": "I", "band_names": ["b"], "description": "d", "rsr": {"b": {"det-1": {}}}}
        info2 = dict(info, description="callback")
        if env.bool("cw"):
            kw["central_wavelengths"] = {"ch1": env.real("c", 0.3, 14.0)}
        se = env.choice("side_effect", ["unset", "callback", "error"])
        if se == "callback":
            kw["side_effect"] = lambda fn: info2
        elif se == "error":
            kw["side_effect"] = Boom
        rv = env.bool("return_value")
        if rv:
            kw["return_value"] = info
        version = env.choice("version", ["unset", "old", "none", "current"])
        if version != "unset":
            kw["rsr_data_version"] = {"old": "v0.0.1", "none": None, "current": env.mod("utils").RSR_DATA_VERSION}[version]
        allow = env.choice("download", ["unset", True, False])
        if allow != "unset":
            kw["download_from_internet"] = allow
        d = env.scratch / "home" / "d"
        fetch = allow is True and version in ("old", "none")

        def body(_):
            def use():
                return rd.RelativeSpectralResponse("Imaginary-1", "someinst")
            if fetch:
                env.assert_true("out of date and allowed: a download is tried", env.raises(Fault, use))
            elif rv:
                env.assert_equal("the value", use().description, "d")
            elif se == "callback":
                env.assert_equal("the callback", use().description, "callback")
            elif se == "error":
                env.assert_true("the error", env.raises(Boom, use))
            else:
                c = kw["central_wavelengths"]["ch1"] if "central_wavelengths" in kw else 0.46
                env.assert_close("the wavelength", [use().rsr["C01"]["det-1"]["central_wavelength"]], [c])
        run(env, t.mock_rsr(rsr_dir=d, **kw), body, False)
        env.assert_equal("fetched only when allowed and out of date", len(net.calls), 1 if fetch else 0)
        _real(env, "the real file afterwards")


def _iterable(env, name, items):
    kind = env.choice(name, ["list", "generator", "set", "dict"])
    return {"list": list(items), "generator": (x for x in items), "set": set(items), "dict": dict.fromkeys(items)}[kind]


def rayleigh(env, api, dirs):
    """Fake tables for the given types, without downloads."""
    t, ray = env.mod("testing"), env.mod("rayleigh")
    _write_real(env)
    lut = env.reals("lut", (2, 2, 2, 2), 0.0, 1.0)
    g = grid(2, 2, 2)
    data = {"reflectance": lut, "wavelengths": np.array([500.0, 600.0]), "sun_zenith_secant": g[0], "azimuth_difference": g[1],
            "satellite_zenith_secant": g[2]}
    with world(env) as net:
        d = _pick_dir(env, "dir") if dirs else None
        kw = {}
        aers, atms = ["rural_aerosol", "urban_aerosol"], ["us-standard", "midlatitude summer"]
        if not dirs and env.bool("types"):
            kw["aerosol_types"] = _iterable(env, "aerosols", aers)
        if not dirs and env.bool("atms"):
            kw["atmospheres"] = _iterable(env, "atmospheres", atms)
        boom = env.bool("boom")
        before = os.environ.get("PSP_CONFIG_FILE")

        def use(aer, atm, n=2):
            r = ray.Rayleigh("Imaginary-1", "someinst", aerosol_type=aer, atmosphere=atm)
            env.assert_true("the tables are up to date", r.lutfiles_version_uptodate)
            z = np.zeros(1)
            return r.get_reflectance(z, z, np.full(1, 180.0), 0.55)

        def body(_):
            todo = [(a, m) for a in aers for m in atms]
            if "aerosol_types" not in kw:
                todo.append(("marine_clean_aerosol", atms[1]))
            if "atmospheres" not in kw:
                todo.append((aers[1], "tropical"))
            for a, m in todo:
                env.assert_close("the given table", use(a, m), [50 * (lut[0, 0, 0, 0] + lut[1, 0, 0, 0])], rtol=1e-6, atol=1e-6)
        run(env, t.mock_rayleigh(rayleigh_dir=d, lut_data=data, **kw), body, boom)
        env.assert_equal("nothing is fetched", net.calls, [])
        env.assert_equal("the configuration is what it was", os.environ.get("PSP_CONFIG_FILE"), before)
        _real(env, "the real file afterwards")
        _kept(env, d)
        leftovers(env)


def rayleigh_versions(env):
    """Tables that are out of date or not there are treated as such, and not fetched."""
    t, ray = env.mod("testing"), env.mod("rayleigh")
    with world(env) as net:
        version = env.choice("version", [True, False, "v0.0.0", "current", "v99.0.0", "w", "v1.0.10"])
        v = env.mod("utils").ATM_CORRECTION_LUT_VERSION["rural_aerosol"]["version"] if version == "current" else version
        r, other = env.scratch / "home" / "r", env.scratch / "home" / "o"
        kw = {"rsr_dir": other} if env.bool("rsr") else {}

        def body(_):
            rr = ray.Rayleigh("Imaginary-1", "someinst", aerosol_type="rural_aerosol")
            env.assert_equal("up to date", bool(rr.lutfiles_version_uptodate), version in (True, "current"))
            z = np.zeros(1)
            if version is False:
                env.assert_true("no table", env.raises(OSError, rr.get_reflectance, z, z, z, 0.55))
            else:
                a = env.flat(rr.get_reflectance(z, z, z, 0.55))
                b = env.flat(rr.get_reflectance(z, z, z, 0.65))
                env.assert_true("a realistic correction", 0 < float(b[0]) < float(a[0]) < 100)
                c = env.flat(rr.get_reflectance(z, z, z, "ch1"))
                env.assert_true("a band by its name", float(c[0]) > float(a[0]))
            conf = env.mod("config").get_config()
            env.assert_equal("directories", (conf["rayleigh_dir"], conf["rsr_dir"]), (str(r), str(kw.get("rsr_dir", r))))
        run(env, t.mock_rayleigh(rayleigh_dir=r, existing_version=v, aerosol_types=["rural_aerosol"], **kw), body, False)
        env.assert_equal("nothing is fetched", net.calls, [])


def everything(env):
    """mock_pyspectral_downloads: all parts together with extra options."""
    t = env.mod("testing")
    _write_real(env)
    with world(env) as net:
        d = _pick_dir(env, "dir")
        kw = {}
        if env.bool("extra"):
            kw["extra_config_options"] = {"mark": 3, "tb2rad_dir": str(env.scratch / "home" / "mine")}
            (env.scratch / "home" / "mine").mkdir()
        boom = env.bool("boom")
        before = os.environ.get("PSP_CONFIG_FILE")

        def body(_):
            c = env.mod("config").get_config()
            env.assert_equal("no downloads", c["download_from_internet"], False)
            env.assert_equal("extra options", c.get("mark"), 3 if kw else None)
            if kw:
                env.assert_equal("extra options go before the others", c["tb2rad_dir"], str(env.scratch / "home" / "mine"))
            for k in ("rsr_dir", "rayleigh_dir", "tb2rad_dir"):
                env.assert_true("each has a directory", Path(c[k]).is_dir())
                env.assert_true("not the real ones", c[k] not in (str(env.rsr_dir), str(env.ray_dir), str(env.lut_dir)))
            z = np.zeros(1)
            rr = env.mod("rayleigh").Rayleigh("Suomi-NPP", "viirs", atmosphere="tropical")
            env.assert_true("a Rayleigh correction", 0 < float(env.flat(rr.get_reflectance(z, z, z, "M3"))[0]) < 100)
            env.mod("radiance_tb_conversion").RadTbConverter("EOS-Aqua", "modis", "20")
        run(env, t.mock_pyspectral_downloads(tmp_path=d, **kw), body, boom)
        env.assert_equal("nothing is fetched", net.calls, [])
        env.assert_equal("the configuration is what it was", os.environ.get("PSP_CONFIG_FILE"), before)
        _real(env, "the real file afterwards")
        _kept(env, d)
        leftovers(env)


def tables(env):
    """Brightness temperature tables go to the given (or a temporary) directory."""
    t = env.mod("testing")
    with world(env) as net:
        d = _pick_dir(env, "dir")
        if d is not None and not d.exists():
            d.mkdir()
        rsr_dir = env.scratch / "home" / "rsr" if env.bool("rsr") else None
        cm = t.mock_tb_conversion(tb2rad_dir=d, rsr_dir=rsr_dir, central_wavelengths={"20": 3.78})

        def body(_):
            calc = env.mod("near_infrared_reflectance").Calculator("EOS-Aqua", "modis", "20", solar_flux=2.0)
            r = calc.reflectance_from_tbs(np.array([50.0]), np.array([300.0]), np.array([290.0]))
            env.assert_true("a reflectance", 0 < float(env.flat(r)[0]) < 1)
            c = env.mod("config").get_config()
            if d is not None:
                env.assert_equal("the given directory", c["tb2rad_dir"], str(d))
            env.assert_true("the table is there", len(list(Path(c["tb2rad_dir"]).glob("*.npz"))) == 1)
            env.assert_equal("the directory of the responses", c["rsr_dir"], str(rsr_dir or c["tb2rad_dir"]))
        run(env, cm, body, env.bool("boom"))
        env.assert_equal("nothing is fetched", net.calls, [])
        _kept(env, d)
        leftovers(env)


def forbid(env):
    """Every download is an error inside, and none is lost afterwards."""
    t, u = env.mod("testing"), env.mod("utils")
    config = env.mod("config")
    with world(env) as net:
        env.set_config({"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "tb2rad_dir": str(env.lut_dir),
                        "download_from_internet": True})
        what = env.choice("what", ["rsr", "reader", "luts", "rayleigh", "check"])

        def use():
            if what == "rsr":
                u.download_rsr()
            elif what == "reader":
                env.mod("rsr_reader").RelativeSpectralResponse("Imaginary-1", "someinst")
            elif what == "luts":
                u.download_luts(aerosol_types=["rural_aerosol"])
            elif what == "rayleigh":
                env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
            else:
                env.mod("rayleigh").check_and_download(aerosol_types=["rural_aerosol"])

        def body(_):
            for _i in range(2):
                env.assert_true("a download is an error", env.raises(RuntimeError, use))
                env.assert_equal("nothing is fetched", net.calls, [])
            config.get_config()
        if env.bool("nested"):
            inner = body

            def body(_):     # noqa: F811
                run(env, t.forbid_pyspectral_downloads(), inner, False)
                inner(None)
        run(env, t.forbid_pyspectral_downloads(), body, env.bool("boom"))
        env.assert_true("afterwards downloads are tried", env.raises(Fault, use))
        env.assert_equal("afterwards downloads are tried ", len(net.calls), 1)


def configs(tier):
    th = tier == "thorough"
    out = [Cfg("override-1", override, dict(depth=1), must_reach=["exactly the given options", "everything as before"], bounds="one override"),
           Cfg("override-2", override, dict(depth=2), must_reach=["exactly the given options", "everything as before"],
               bounds="two nested overrides", budget=200)]
    for api in ("mock_rsr", "mock_tb_conversion", "mock_pyspectral_downloads"):
        for inst in NAMES:
            if not th and api == "mock_pyspectral_downloads" and inst != "viirs":
                continue
            out.append(Cfg("%s-%s" % (api, inst), rsr, dict(api=api, inst=inst), must_reach=["central wavelength", "the real file afterwards"],
                           bounds="2 bands", budget=200))
    out.append(Cfg("values", rsr_values, must_reach=["the value", "the callback", "the wavelength", "fetched only when allowed and out of date"],
                   budget=200))
    out.append(Cfg("rayleigh-types", rayleigh, dict(api="mock_rayleigh", dirs=False), must_reach=["the given table"], budget=200,
                   bounds="table of 2x2x2x2"))
    out.append(Cfg("rayleigh-dirs", rayleigh, dict(api="mock_rayleigh", dirs=True), must_reach=["the given table"], budget=200,
                   bounds="table of 2x2x2x2"))
    out.append(Cfg("versions", rayleigh_versions, must_reach=["up to date", "a realistic correction"], budget=200))
    out.append(Cfg("everything", everything, must_reach=["a Rayleigh correction"], budget=200))
    out.append(Cfg("tables", tables, must_reach=["the table is there"], budget=200))
    out.append(Cfg("forbid", forbid, must_reach=["a download is an error", "afterwards downloads are tried"], budget=200))
    return out
