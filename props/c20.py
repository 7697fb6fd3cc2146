"""C20: instrument names are brought to the one form the files use."""
from props.common import Cfg

ASSUMPTIONS = ["all listed platforms and unlisted ones; instrument names: every listed one in lower, upper and mixed case, with a dash "
               "for the slash of AVHRR, and arbitrary strings of up to 5 characters"]
# Which instrument flies on which platform
PLATFORMS = {
    "Envisat": ["aatsr"], "GOES-16": ["abi"], "GOES-17": ["abi"], "GOES-18": ["abi"], "GOES-19": ["abi"], "FY-4A": ["agri"],
    "FY-4B": ["agri", "ghi"], "Himawari-8": ["ahi"], "Himawari-9": ["ahi"], "GEO-KOMPSAT-2A": ["ami"], "GEO-KOMPSAT-2B": ["goci-2"],
    "NOAA-10": ["avhrr/1"], "NOAA-6": ["avhrr/1"], "NOAA-8": ["avhrr/1"], "TIROS-N": ["avhrr/1"], "NOAA-11": ["avhrr/2"],
    "NOAA-12": ["avhrr/2"], "NOAA-14": ["avhrr/2"], "NOAA-7": ["avhrr/2"], "NOAA-9": ["avhrr/2"], "Metop-A": ["avhrr/3"],
    "Metop-B": ["avhrr/3"], "Metop-C": ["avhrr/3"], "NOAA-15": ["avhrr/3"], "NOAA-16": ["avhrr/3"], "NOAA-17": ["avhrr/3"],
    "NOAA-18": ["avhrr/3"], "NOAA-19": ["avhrr/3"], "HY-1C": ["cocts"], "Meteosat-12": ["fci"], "MTG-I1": ["fci"],
    "Metop-SG-A1": ["metimage"], "EOS-Aqua": ["modis"], "EOS-Terra": ["modis"], "Aqua": ["modis"], "Terra": ["modis"],
    "Sentinel-2A": ["msi"], "Sentinel-2B": ["msi"], "Sentinel-2C": ["msi"], "Arctica-M-N1": ["msu-gsa"], "Electro-L-N2": ["msu-gs"],
    "Sentinel-3A": ["olci", "slstr"], "Sentinel-3B": ["olci", "slstr"], "Landsat-8": ["oli_tirs"], "Landsat-9": ["oli_tirs"],
    "Meteosat-10": ["seviri"], "Meteosat-11": ["seviri"], "Meteosat-8": ["seviri"], "Meteosat-9": ["seviri"], "NOAA-20": ["viirs"],
    "NOAA-21": ["viirs"], "Suomi-NPP": ["viirs"], "FY-3A": ["virr", "mersi-1"], "FY-3B": ["virr", "mersi-1"],
    "FY-3C": ["virr", "mersi-1"], "FY-3D": ["mersi-2"], "FY-3F": ["mersi-3"], "FY-3G": ["mersi-rm"], "DSCOVR": ["epic"]}


def norm(s):
    return s.lower().replace("/", "").replace("-", "")


def _case(env, name):
    k = env.choice("case", ["lower", "upper", "title"])
    return {"lower": name.lower(), "upper": name.upper(), "title": name.title()}[k]


def listed(env, platforms):
    """Instruments that fly on the platform, in every spelling."""
    f = env.mod("utils").check_and_adjust_instrument_name
    p = env.choice("platform", platforms)
    inst = env.choice("instrument", PLATFORMS[p])
    given = _case(env, inst)
    if inst.startswith("avhrr/"):
        given = given.replace("/", env.choice("sep", ["/", "-", ""]))
    env.assert_equal("the instrument of the platform", f(p, given), norm(inst))


def wrong(env, platforms):
    """Instruments that do not fly on the platform are replaced by the (first) one that does."""
    f = env.mod("utils").check_and_adjust_instrument_name
    p = env.choice("platform", platforms)
    others = sorted({i for v in PLATFORMS.values() for i in v} - set(PLATFORMS[p]))
    given = _case(env, env.choice("instrument", others))
    env.assert_equal("the instrument of the platform instead", f(p, given), norm(PLATFORMS[p][0]))


def strings(env, platform, alphabet, maxlen):
    """Any string: what is returned is an instrument of the platform, or the string in normal form for an unlisted platform."""
    f = env.mod("utils").check_and_adjust_instrument_name
    s = env.string("inst", maxlen, alphabet)
    if platform is None:
        plat = "Imaginary-7"
        got = f(plat, s)
        want = s.lower().replace("/", "").replace("-", "")
        env.assert_true("an unlisted platform keeps the instrument", got == want)
        env.assert_true("no dashes and slashes", not ("-" in got) and not ("/" in got))
        return
    insts = PLATFORMS[platform]
    got = f(platform, s)
    want = norm(insts[0])
    low = s.lower()
    for i in insts:
        if low == i or (i.startswith("avhrr/") and low == i.replace("/", "-")):
            want = norm(i)
            break
    env.assert_true("an instrument of the platform", got == want, "got %r, expected %r" % (got, want))


def unlisted(env):
    """Platforms that are not listed."""
    f = env.mod("utils").check_and_adjust_instrument_name
    p = env.string("platform", 3, "AN-1")
    inst = env.choice("instrument", ["avhrr/1", "AVHRR-3", "mersi-2", "seviri", "VIIRS", "Msu-GS", "a/b-c"])
    env.assert_equal("an unlisted platform keeps the instrument", f(p, inst), norm(inst))


def identical(env):
    f = env.mod("utils").are_instruments_identical
    a = env.string("a", 7, "avhrAVHR/-13", minlen=7)
    b = env.string("b", 7, "avhrAVHR/-13", minlen=7)
    dash = {"avhrr-1": "avhrr/1", "avhrr-2": "avhrr/2", "avhrr-3": "avhrr/3"}
    same = bool(a == b)
    if not same:
        for k, v in dash.items():
            if b == k and a == v:
                same = True
                break
    got = f(a, b)
    env.assert_true("identical names", bool(got) == same, "got %r, expected %r" % (got, same))


def refused(env):
    f = env.mod("utils").are_instruments_identical
    bad = env.choice("bad", [None, 1, ["avhrr/1"], b"avhrr/1", ("avhrr",), 1.5])
    first = env.bool("first")
    args = (bad, "avhrr/1") if first else ("avhrr/1", bad)
    env.assert_true("names that are not strings are refused", env.raises(ValueError, f, *args))


def reader(env):
    """The reader uses the instrument name of the platform to find the file."""
    import numpy as np
    det = {"wavelength": np.array([0.5, 0.6, 0.7]), "response": np.array([0.1, 1.0, 0.2]), "central_wavelength": env.real("cw", 0.5, 0.7)}
    p, inst = env.choice("sat", [("NOAA-19", "avhrr3"), ("FY-3B", "mersi1"), ("FY-3B", "virr"), ("Sentinel-3B", "slstr"), ("EOS-Aqua", "modis"),
                                 ("Arctica-M-N1", "msugsa"), ("GEO-KOMPSAT-2B", "goci2")])
    env.write_rsr(p, inst, {"ch1": {"det-1": det}})
    given = {"avhrr3": ["avhrr/3", "AVHRR-3", "avhrr-3", "seviri"], "mersi1": ["mersi-1", "MERSI-1"], "virr": ["VIRR", "virr", "nonsense"],
             "slstr": ["slstr", "SLSTR"], "modis": ["modis", "MODIS", "viirs"], "msugsa": ["msu-gsa", "MSU-GSA"],
             "goci2": ["goci-2", "goci2"]}[inst]
    r = env.mod("rsr_reader").RelativeSpectralResponse(p, env.choice("given", given))
    env.assert_equal("instrument of the reader", r.instrument, inst)
    env.assert_equal("platform of the reader", r.platform_name, p)
    env.assert_close("the response of the file", [r.rsr["ch1"]["det-1"]["central_wavelength"]], [det["central_wavelength"]])


def configs(tier):
    out = []
    names = sorted(PLATFORMS)
    for i in range(0, len(names), 20):
        out.append(Cfg("listed-%d" % i, listed, dict(platforms=names[i:i + 20]), must_reach=["the instrument of the platform"]))
    step = 12 if tier == "quick" else 4
    for i in range(0, len(names), step):
        out.append(Cfg("wrong-%d" % i, wrong, dict(platforms=names[i:i + step]), must_reach=["the instrument of the platform instead"],
                       budget=120 if tier == "quick" else 300))
    out.append(Cfg("string-unlisted", strings, dict(platform=None, alphabet="aZ/-1", maxlen=4),
                   must_reach=["an unlisted platform keeps the instrument"]))
    for p, al, n in (("NOAA-19", "avhrVR/-3", 7), ("FY-3A", "mersiMvV-1", 7), ("Sentinel-3A", "olcistrOL", 5), ("EOS-Terra", "modisMOD", 5)):
        out.append(Cfg("string-%s" % p, strings, dict(platform=p, alphabet=al, maxlen=n), must_reach=["an instrument of the platform"],
                       budget=120))
    out.append(Cfg("unlisted", unlisted, must_reach=["an unlisted platform keeps the instrument"]))
    out.append(Cfg("identical", identical, must_reach=["identical names"], budget=120))
    out.append(Cfg("refused", refused, must_reach=["names that are not strings are refused"]))
    out.append(Cfg("reader", reader, must_reach=["instrument of the reader"]))
    return out
