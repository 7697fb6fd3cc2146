"""C13: each aerosol and atmosphere type uses its own Rayleigh table; others are refused."""
import numpy as np

from props.common import Cfg
from props.raylib import write_lut

ASSUMPTIONS = ["all 11 aerosol and 6 atmosphere types, tables with one arbitrary reflectance per type; unknown names: strings of up "
               "to 6 characters, and variations of known names"]
AEROSOLS = ["antarctic_aerosol", "continental_average_aerosol", "continental_clean_aerosol", "continental_polluted_aerosol",
            "desert_aerosol", "marine_clean_aerosol", "marine_polluted_aerosol", "marine_tropical_aerosol", "rayleigh_only",
            "rural_aerosol", "urban_aerosol"]
ATMOSPHERES = ["subarctic summer", "subarctic winter", "midlatitude summer", "midlatitude winter", "tropical", "us-standard"]
ANG = [np.array([30.0]), np.array([20.0]), np.array([60.0])]


def _flat_lut(env, v):
    return env.array([v] * 16).reshape((2, 2, 2, 2))


def selection(env, aerosol):
    """The table of the chosen aerosol and atmosphere, whatever other tables there are."""
    atms = ATMOSPHERES
    vals = {}
    others = [a for a in AEROSOLS if a != aerosol][:2]
    for i, ae in enumerate([aerosol] + others):
        for j, at in enumerate(atms):
            vals[ae, at] = env.real("v%d%d" % (i, j), 0.0, 1.0)
            write_lut(env, _flat_lut(env, vals[ae, at]), np.array([400.0, 800.0]), 2, 2, 2, aerosol=ae, atm=at)
    ray = env.mod("rayleigh")
    at = env.choice("atmosphere", atms + [None])
    kw = {"aerosol_type": aerosol}
    if at is not None:
        kw["atmosphere"] = at
    r = ray.Rayleigh("Imaginary-1", "someinst", **kw)
    got = r.get_reflectance(*ANG, 0.5)
    env.assert_close("reflectance of the chosen table", got, [vals[aerosol, at or "us-standard"] * 100.0], rtol=1e-6, atol=1e-9)
    env.assert_true("the table is up to date", r.lutfiles_version_uptodate)


def default(env):
    v, w = env.real("v", 0.0, 1.0), env.real("w", 0.0, 1.0)
    write_lut(env, _flat_lut(env, v), np.array([400.0, 800.0]), 2, 2, 2, aerosol="marine_clean_aerosol")
    write_lut(env, _flat_lut(env, w), np.array([400.0, 800.0]), 2, 2, 2, aerosol="rayleigh_only")
    r = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    env.assert_close("marine clean aerosol in the US standard atmosphere by default", r.get_reflectance(*ANG, 0.5), [v * 100.0],
                     rtol=1e-6, atol=1e-9)


def unknown(env, what):
    """Anything that is not a known type is refused."""
    write_lut(env, np.full((2, 2, 2, 2), 0.5), np.array([400.0, 800.0]), 2, 2, 2)
    ray = env.mod("rayleigh")
    name = env.string("name", 6, "us-tandrpicl_", 0)
    env.assert_true("an unknown type is refused",
                    env.raises(AttributeError, ray.Rayleigh, "Imaginary-1", "someinst", **{what: name}))


def variants(env, what):
    write_lut(env, np.full((2, 2, 2, 2), 0.5), np.array([400.0, 800.0]), 2, 2, 2)
    known = ATMOSPHERES if what == "atmosphere" else AEROSOLS
    cand = []
    for k in known:
        cand += [k.upper(), k + " ", k[:-1], k.replace("_", "-").replace(" ", "_") + "x", k.split("_")[0].split(" ")[0] + "?"]
    cand += [k for k in (AEROSOLS if what == "atmosphere" else ATMOSPHERES)] + ["", "none", "subarctic_summer!"]
    name = env.choice("name", [c for c in cand if c not in known])
    env.assert_true("an unknown type is refused", env.raises(AttributeError, env.mod("rayleigh").Rayleigh, "Imaginary-1",
                                                             "someinst", **{what: name}))


def missing(env, form):
    """A table that is not there is an error, not a missing correction."""
    wl = env.real("wl", 0.3, 1.0)
    write_lut(env, np.full((2, 2, 2, 2), 0.5), np.array([400.0, 800.0]), 2, 2, 2, atm="tropical")
    r = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst", atmosphere="us-standard")
    ang = ANG if form == "numpy" else [env.dask(a) for a in ANG]
    env.assert_true("a missing table is an error", env.raises(FileNotFoundError, r.get_reflectance, *ang, wl))


def independent(env):
    """Two corrections side by side do not disturb each other."""
    vals = [env.real("v%d" % i, 0.0, 1.0) for i in range(3)]
    keys = [("rayleigh_only", "tropical"), ("rayleigh_only", "us-standard"), ("urban_aerosol", "tropical")]
    for (ae, at), v in zip(keys, vals):
        write_lut(env, _flat_lut(env, v), np.array([400.0, 800.0]), 2, 2, 2, aerosol=ae, atm=at)
    ray = env.mod("rayleigh")
    rs = [ray.Rayleigh("Imaginary-1", "someinst", aerosol_type=ae, atmosphere=at) for ae, at in keys]
    order = env.choice("order", [(0, 1, 2), (2, 1, 0), (1, 0, 2), (0, 2, 1)])
    for i in order + order:
        env.assert_close("reflectance of its own table", rs[i].get_reflectance(*ANG, 0.5), [vals[i] * 100.0], rtol=1e-6, atol=1e-9)


def outdated(env, version):
    """An outdated table is used when downloads are off, but it is not called up to date."""
    v = env.real("v", 0.0, 1.0)
    write_lut(env, _flat_lut(env, v), np.array([400.0, 800.0]), 2, 2, 2, uptodate=False)
    u = env.mod("utils")
    info = u.ATM_CORRECTION_LUT_VERSION["marine_clean_aerosol"]
    if version is not None:
        (env.ray_dir / "marine_clean_aerosol" / info["filename"]).write_text(version)
    r = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    env.assert_true("not up to date", not r.lutfiles_version_uptodate)
    env.assert_close("reflectance of the table", r.get_reflectance(*ANG, 0.5), [v * 100.0], rtol=1e-6, atol=1e-9)


def versions(env):
    """Up to date is the table whose version file names exactly the current version."""
    v = env.real("v", 0.0, 1.0)
    write_lut(env, _flat_lut(env, v), np.array([400.0, 800.0]), 2, 2, 2, uptodate=False)
    info = env.mod("utils").ATM_CORRECTION_LUT_VERSION["marine_clean_aerosol"]
    cur = info["version"]
    same = [cur, cur + "\n", cur + "\nsome remark\n", "  " + cur + " \n"]
    other = ["v9.9.9", "v99", cur + "0", cur[:-1], cur.upper() if cur.upper() != cur else "?", cur[1:], "w" + cur, cur + " " + cur,
             "older\n" + cur, "\n" + cur, "z"]
    text = env.choice("content", same + other)
    (env.ray_dir / "marine_clean_aerosol" / info["filename"]).write_text(text)
    r = env.mod("rayleigh").Rayleigh("Imaginary-1", "someinst")
    env.assert_true("up to date exactly with the current version", r.lutfiles_version_uptodate == (text in same))
    env.assert_close("reflectance of the table", r.get_reflectance(*ANG, 0.5), [v * 100.0], rtol=1e-6, atol=1e-9)


def other_version(env):
    """The version file of another aerosol does not count."""
    write_lut(env, np.full((2, 2, 2, 2), 0.5), np.array([400.0, 800.0]), 2, 2, 2, uptodate=False)
    lut = env.mod("utils").ATM_CORRECTION_LUT_VERSION
    name = env.choice("other", [a for a in AEROSOLS if a != "marine_clean_aerosol"])
    d = env.ray_dir / name
    d.mkdir(parents=True, exist_ok=True)
    (d / lut[name]["filename"]).write_text(lut[name]["version"])
    own = lut["marine_clean_aerosol"]["filename"]
    if own != lut[name]["filename"]:
        (env.ray_dir / "marine_clean_aerosol" / lut[name]["filename"]).write_text(lut[name]["version"])
    R = env.mod("rayleigh").Rayleigh
    env.assert_true("not up to date", not R("Imaginary-1", "someinst").lutfiles_version_uptodate)
    env.assert_true("the other one is", R("Imaginary-1", "someinst", aerosol_type=name).lutfiles_version_uptodate)


def configs(tier):
    out = [Cfg("select-" + a, selection, dict(aerosol=a), must_reach=["reflectance of the chosen table"], bounds="6 atmospheres, 3 "
               "aerosols") for a in AEROSOLS]
    out.append(Cfg("default", default, must_reach=["marine clean aerosol in the US standard atmosphere by default"]))
    for what in ("atmosphere", "aerosol_type"):
        out.append(Cfg("unknown-" + what, unknown, dict(what=what), must_reach=["an unknown type is refused"],
                       bounds="names of up to 6 characters"))
        out.append(Cfg("variants-" + what, variants, dict(what=what), must_reach=["an unknown type is refused"]))
    for form in ("numpy", "dask"):
        out.append(Cfg("missing-" + form, missing, dict(form=form), must_reach=["a missing table is an error"]))
    out.append(Cfg("independent", independent, must_reach=["reflectance of its own table"], bounds="3 tables, 4 orders"))
    out.append(Cfg("versions", versions, must_reach=["up to date exactly with the current version"]))
    out.append(Cfg("other-version", other_version, must_reach=["not up to date", "the other one is"]))
    for v in (None, "v0.0.1", ""):
        out.append(Cfg("outdated-%s" % v, outdated, dict(version=v), must_reach=["not up to date"]))
    return out
