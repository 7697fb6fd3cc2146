"""C28: the readers of the agencies' response files."""
import numpy as np

from props.common import Cfg

ASSUMPTIONS = ["text files of 3-4 samples per band and detector with arbitrary numbers in them, increasing in the wavelength (or wavenumber) "
               "unless noted; the layout (columns, header lines, unit) of each agency as the reader documents it; the text readers and the "
               "VIIRS and MODIS converters (Excel and netCDF files are outside)"]

# module, class, platform, key of the configuration, header lines, columns (w: the abscissa, r: the response, x: something else), separator, unit
READERS = {
    "abi": ("abi_rsr", "AbiRSR", "GOES-16", "abi", 2, "wxr", " ", "um"),
    "ami": ("ami_reader", "AmiRSR", "GEO-KOMPSAT-2A", "ami", 4, "wr", " ", "cm-1"),
    "avhrr3": ("avhrr_rsr", "AvhrrRSR", "NOAA-19", "avhrr/3", 1, "wr", " ", "um"),
    "avhrr2": ("avhrr_rsr", "AvhrrRSR", "NOAA-14", "avhrr/2", 1, "wr", " ", "um"),
    "avhrr1": ("avhrr_rsr", "AvhrrRSR", "NOAA-10", "avhrr/1", 1, "wr", " ", "nm"),
    "mersi2": ("mersi2_rsr", "Mersi2RSR", "FY-3D", "mersi-2", 0, "wr", " ", "nm"),
    "mersi3": ("mersi3_rsr", "Mersi3RSR", "FY-3F", "mersi3", 0, "wr", " ", "nm"),
    "mersirm": ("mersirm_rsr", "MersiRMRSR", "FY-3G", "mersi-rm", 1, "wr", " ", "nm"),
    "msugs": ("msu_gs_reader", "MsugsRSR", "Electro-L-N2", "msu-gs", 4, "wr", " ", "cm-1"),
    "slstr": ("slstr_rsr_txt", "SlstrTxtRSR", "Sentinel-3A", "slstr", 4, "wr", " ", "cm-1"),
    "virrb": ("virr_rsr", "VirrRSR", "FY-3B", "virr", 0, "wr", " ", "nm"),
    "virrc": ("virr_rsr", "VirrRSR", "FY-3C", "virr", 0, "wr", " ", "nm"),
}
RANGE = {"um": (0.3, 14.0), "nm": (300.0, 14000.0), "cm-1": (700.0, 33000.0)}
FULL = {"um": lambda x: x, "nm": lambda x: x * 0.001, "cm-1": lambda x: 1e4 / x}


def _bands(mod, platform, key):
    for n in dir(mod):
        if n.endswith("BAND_NAMES"):
            b = getattr(mod, n)
            if isinstance(b, dict) and platform in b:
                b = b[platform]
            elif isinstance(b, dict) and key in b:
                b = b[key]
            return list(b)
    raise LookupError


def _samples(env, name, n, unit, lo=0.01, hi=1.0):
    w = env.reals(name + ".w", (n,), *RANGE[unit])
    w = [w[i] for i in range(n)]
    for a, b in zip(w[:-1], w[1:]):
        env.assume_lt(a, b)
    return w, [env.real("%s.r%d" % (name, i), lo, hi) for i in range(n)]


def _write(env, fn, cols, rows, header=0, sep=" "):
    """Columns of symbols; 'x' is filled with a number of its own."""
    lines = ["# header %d" % i for i in range(header)]
    for i, (w, r) in enumerate(rows):
        lines.append(env.text(*[{"w": w, "r": r}.get(c, 7.0 + i) for c in cols], sep=sep))
    (env.scratch / fn).write_text("\n".join(lines) + "\n", encoding="utf-8")


def _config(env, platform, key, bands, files):
    conf = {"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "download_from_internet": False,
            platform + "-" + key: dict({"path": str(env.scratch)}, **{b: files.get(b, b + ".dat") for b in bands})}
    env.set_config(conf)


def _compare(env, got, w, r, detail="", rtol=1e-9):
    env.assert_shape("as many samples as the file has" + detail, got["wavelength"], (len(w),))
    env.assert_shape("as many samples as the file has" + detail, got["response"], (len(w),))
    env.assert_close("wavelengths in micrometre" + detail, got["wavelength"], w, rtol=rtol)
    env.assert_close("the response of each wavelength" + detail, got["response"], r, rtol=rtol)


def plain(env, reader, n):
    """Two columns of the file of the band."""
    module, cls, platform, key, header, cols, sep, unit = READERS[reader]
    mod = env.script(module)
    bands = _bands(mod, platform, key)
    _config(env, platform, key, bands, {})
    first, second = bands[0], bands[-1]
    one, two = _samples(env, "a", n, unit), _samples(env, "b", n, unit)
    _write(env, first + ".dat", cols, list(zip(*one)), header, sep)
    _write(env, second + ".dat", cols, list(zip(*two)), header, sep)
    which = env.choice("band", [first, second])
    w, r = one if which == first else two
    rsr = getattr(mod, cls)(which, platform).rsr
    if "wavelength" not in rsr:
        rsr = rsr["det-1"]
    w = [FULL[unit](x) for x in w]
    if unit == "cm-1":
        w, r = w[::-1], r[::-1]
    _compare(env, rsr, w, r)


NM = {"FY-4A": ("ch1", "ch2", "ch3"), "FY-4B": ("ch1", "ch2", "ch3", "ch4", "ch5", "ch6")}


def cut(env, reader, platform, bands, n, tails=0):
    """Samples with (almost) no response are left out; responses in percent become fractions."""
    module, cls, key, header, sep = {"agri": ("agri_rsr", "AGRIRSR", "agri", 1, "\t"), "ghi": ("ghi_rsr", "GHIRSR", "ghi", 1, "\t"),
                                     "mersi1": ("mersi1_rsr", "Mersi1FY3ABRSR", "mersi-1", 0, " ")}[reader]
    mod = env.script(module)
    band = env.choice("band", list(bands))
    unit = "nm" if reader == "mersi1" or (reader == "ghi" and band != "ch7") or (reader == "agri" and band in NM[platform]) else "um"
    names = {"agri": lambda: mod.FY4_AGRI_BAND_NAMES, "ghi": lambda: mod.FY4_GHI_BAND_NAMES,
             "mersi1": lambda: mod.MERSI1_FY3AC_BAND_NAMES}[reader]()
    _config(env, platform, key, names, {})
    percent = reader != "mersi1" and env.bool("percent")
    w, r = _samples(env, "a", n, unit, 0.0, 1.0)
    tail = [(float(x), 0.04 if percent else 0.0004) for x in np.linspace(0.5, 0.9, tails) * RANGE[unit][0]]
    if percent:
        r = [x * 100.0 for x in r]
        env.assume(r[0] > 2.0)
        env.assume(r[-1] > 2.0)
    else:
        env.assume(r[0] > 0.01)
        env.assume(r[-1] > 0.01)
    _write(env, band + ".dat", "wr", tail + list(zip(w, r)), header, sep)
    rsr = getattr(mod, cls)(band, platform).rsr
    keep = []
    for x, y in zip(w, r):
        y = y / 100.0 if percent else y
        if not env.le(y, 0.001, gap=1e-6):
            keep.append((FULL[unit](x), y))
    _compare(env, rsr, [x for x, y in keep], [y for x, y in keep])


def shared(env, n):
    """COCTS: one file with a column per band."""
    mod = env.script("cocts_rsr")
    bands = _bands(mod, "HY-1C", "cocts")
    _config(env, "HY-1C", "cocts", bands, {b: "all.dat" for b in bands})
    w, _ = _samples(env, "a", n, "nm")
    r = {b: [env.real("%s%d" % (b, i), 0.0, 1.0) for i in range(n)] for b in bands[:8]}
    rows = [env.text(w[i], *[r[b][i] if b in r else 0.5 for b in ("ch%d" % k for k in range(1, 9))]) for i in range(n)]
    (env.scratch / "all.dat").write_text("\n".join(rows) + "\n", encoding="utf-8")
    band = env.choice("band", bands)
    _compare(env, mod.COCTS_RSR(band, "HY-1C").rsr, [x * 0.001 for x in w], r[band])


def missing(env, reader):
    """Without the file of the band there is no response."""
    module, cls, platform, key, header, cols, sep, unit = READERS[reader]
    mod = env.script(module)
    bands = _bands(mod, platform, key)
    _config(env, platform, key, bands, {})
    one = _samples(env, "a", 3, unit)
    _write(env, bands[0] + ".dat", cols, list(zip(*one)), header, sep)
    try:
        rsr = getattr(mod, cls)(bands[-1], platform).rsr
    except (IOError, OSError):
        rsr = None
    env.assert_true("no response without a file", not rsr)


def _viirs_files(env, mod, platform, n, full):
    """Detectors in turn; the second may have samples of its own."""
    conf = {"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "download_from_internet": False,
            platform + "-viirs": {"rootdir": str(env.scratch),
                                  "section1": {"filename": "{bandname}.dat", "bands": list(mod.VIIRS_BAND_NAMES)}}}
    env.set_config(conf)
    order = env.choice("order", ["interleaved", "one-by-one"])
    wa, ra = _samples(env, "a", n, "nm")
    same = env.bool("same")
    if same:
        wb, rb = wa, [env.real("b.r%d" % i, 0.01, 1.0) for i in range(n)]
    else:
        wb, rb = _samples(env, "b", n, "nm")
    rows = [(1, w, r) for w, r in zip(wa, ra)] + [(2, w, r) for w, r in zip(wb, rb)]
    if order == "interleaved":
        rows = [x for pair in zip(rows[:n], rows[n:]) for x in pair]
    for b in mod.VIIRS_BAND_NAMES if full else ["M5"]:
        lines = ["% a header"] * (2 if b == "M5" else 1)
        for k, w, r in rows if b == "M5" else [(1, 500.0, 0.5), (1, 510.0, 1.0), (1, 520.0, 0.25)]:
            if platform == "Suomi-NPP":
                lines.append(env.text(b, str(k), "1", w, 99.0, 0.125, r, "0", "0"))
            else:
                lines.append(env.text(b, str(k), "1", w, r, 99.0, 5.0, "0", "0"))
        (env.scratch / (b + ".dat")).write_text("\n".join(lines) + "\n", encoding="utf-8")
    return {"det-1": (wa, ra), "det-2": (wb, rb)}


def viirs(env, platform, n):
    mod = env.script("viirs_rsr")
    dets = _viirs_files(env, mod, platform, n, False)
    rsr = mod.ViirsRSR("M5", platform).rsr
    env.assert_equal("the detectors of the file", sorted(rsr), sorted(dets))
    for d, (w, r) in dets.items():
        _compare(env, rsr[d], [x * 0.001 for x in w], r, " of the detector")


def viirs_h5(env, platform, n):
    """From the agency's files to the response object."""
    mod = env.script("viirs_rsr")
    dets = _viirs_files(env, mod, platform, n, True)
    mod.create_viirs_rsr(platform)
    _through(env, platform, "viirs", "M5", dets)


def _through(env, platform, instrument, band, dets, scale=0.001):
    utils = env.mod("utils")
    (env.rsr_dir / utils.RSR_DATA_VERSION_FILENAME).write_text(utils.RSR_DATA_VERSION)
    obj = env.mod("rsr_reader").RelativeSpectralResponse(platform, instrument)
    env.assert_equal("the detectors of the file", sorted(obj.rsr[band]), sorted(dets))
    for d, (w, r) in dets.items():
        got = obj.rsr[band][d]
        _compare(env, got, [x * scale for x in w], r, " after the conversion", rtol=2e-5)


def _modis_files(env, mod, platform, band, n, full, scale):
    conf = {"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "download_from_internet": False,
            platform + "-modis": {"path": str(env.scratch)}}
    env.set_config(conf)
    unit = "nm" if scale != 1.0 else "um"
    wa, ra = _samples(env, "a", n, unit)
    same = env.bool("same")
    if same:
        wb, rb = wa, [env.real("b.r%d" % i, 0.01, 1.0) for i in range(n)]
    else:
        wb, rb = _samples(env, "b", n, unit)
        env.assume(wb[0] > wa[0] * 1.001)
    hole = env.choice("nodata", [None, 0, 1])
    order = env.choice("order", [(0, 1, 2), (2, 1, 0), (1, 2, 0)])
    rows = [(1, wa[i], "-99.0" if hole == i else ra[i]) for i in order] + [(2, wb[i], rb[i]) for i in order]
    for b in mod.MODIS_BAND_NAMES if full else [band]:
        num = int(b)
        if platform == "EOS-Terra":
            fn = "rsr.%d.inb.final" % num
        else:
            fn = "%02d.%s.1pct.det" % (num, "tv" if num in (5, 6, 7) or num >= 20 else "amb")
        lines = ["# a comment"]
        for k, w, r in rows if b == band else [(1, 5.0, 0.5), (1, 5.1, 1.0), (1, 5.2, 0.25)]:
            lines.append(env.text(b, str(k), w, r))
        (env.scratch / fn).write_text("\n".join(lines) + "\n", encoding="utf-8")
    keep = [i for i in range(n) if i != hole]
    return {"det-1": ([wa[i] for i in keep], [ra[i] for i in keep]), "det-2": (wb, rb)}


MODIS = {"terra-sw": ("EOS-Terra", "5", 0.001), "terra-ir": ("EOS-Terra", "31", 1.0), "aqua-sw": ("EOS-Aqua", "1", 0.001),
         "aqua-ir": ("EOS-Aqua", "31", 0.001)}


def modis(env, case, n):
    platform, band, scale = MODIS[case]
    mod = env.script("modis_rsr")
    dets = _modis_files(env, mod, platform, band, n, False, scale)
    rsr = mod.ModisRSR(band, platform).rsr
    env.assert_equal("the detectors of the file", sorted(rsr), sorted(dets))
    for d, (w, r) in dets.items():
        _compare(env, rsr[d], [x * scale for x in w], r, " of the detector")


def modis_h5(env, case, n):
    platform, band, scale = MODIS[case]
    mod = env.script("modis_rsr")
    dets = _modis_files(env, mod, platform, band, n, True, scale)
    mod.convert2hdf5(platform)
    _through(env, platform, "modis", band, dets, scale)


def configs(tier):
    reach = ["the response of each wavelength"]
    n = 3 if tier == "quick" else 5
    out = [Cfg("plain-" + k, plain, dict(reader=k, n=n), must_reach=reach) for k in READERS]
    out.append(Cfg("cut-agri-a", cut, dict(reader="agri", platform="FY-4A", bands=("ch1", "ch3", "ch4", "ch14"), n=4), must_reach=reach))
    out.append(Cfg("cut-agri-b", cut, dict(reader="agri", platform="FY-4B", bands=("ch1", "ch6", "ch7", "ch15"), n=4), must_reach=reach))
    out.append(Cfg("cut-ghi", cut, dict(reader="ghi", platform="FY-4B", bands=("ch1", "ch6", "ch7"), n=4), must_reach=reach))
    out.append(Cfg("tails-agri", cut, dict(reader="agri", platform="FY-4A", bands=("ch2", "ch9"), n=2, tails=300), must_reach=reach))
    out.append(Cfg("tails-ghi", cut, dict(reader="ghi", platform="FY-4B", bands=("ch2",), n=2, tails=300), must_reach=reach))
    for p in ("FY-3A", "FY-3C"):
        out.append(Cfg("cut-mersi1-" + p, cut, dict(reader="mersi1", platform=p, bands=("ch1", "ch5", "ch20"), n=4), must_reach=reach))
    out.append(Cfg("cocts", shared, dict(n=3), must_reach=reach))
    for k in READERS:
        out.append(Cfg("missing-" + k, missing, dict(reader=k), must_reach=["no response without a file"]))
    for p in ("Suomi-NPP", "NOAA-20", "NOAA-21"):
        out.append(Cfg("viirs-" + p, viirs, dict(platform=p, n=3), must_reach=["the response of each wavelength of the detector"]))
    out.append(Cfg("viirs-h5", viirs_h5, dict(platform="NOAA-20", n=3), must_reach=["the response of each wavelength after the conversion"]))
    for c in MODIS:
        out.append(Cfg("modis-" + c, modis, dict(case=c, n=3), must_reach=["the response of each wavelength of the detector"]))
    out.append(Cfg("modis-h5", modis_h5, dict(case="terra-ir", n=3), must_reach=["the response of each wavelength after the conversion"]))
    return out
