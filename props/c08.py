"""C08: near-infrared calculators do not depend on what was computed before."""
import numpy as np

from props.c02 import planck_law
from props.common import Cfg, wrap
from props.nirlib import INTEGRAL, NTAB, START, reflectance, rsr, table_radiance
from props.rsrlib import trapz

ASSUMPTIONS = ["histories of 2-3 calls on one calculator and of 2-3 calculators sharing a table directory; responses with 4 points, "
               "symbolic; tables of 2100 entries of which 5 are compared"]
LO, HI = START + 0.05, START + 159.9
W4 = [3.6, 3.7, 3.8, 3.9]
PROBE = [0, 1, 703, 1444, 2099]
NIR = "near_infrared_reflectance"


def history(env, forms, ncalls, co2, sym=False):
    """The last of a series of calls does not depend on the calls before."""
    rsr(env)
    flux = env.real("flux", 4.0, 5.0)
    tab = env.table("rad", NTAB, 0.0, 1.0e6)
    lut = {"tb": START + 0.1 * np.arange(NTAB), "radiance": tab}
    calc = env.mod(NIR).Calculator("Imaginary-1", "someinst", "ch20", solar_flux=flux)
    for c in range(ncalls - 1):
        p = "h%d." % c
        form = env.choice(p + "form", ["numpy", "dask"])
        shape = env.choice(p + "shape", [(1,), (1, 2)])
        if sym and shape == (1,):
            n, t = env.reals(p + "nir", 1, LO, HI), env.reals(p + "th", 1, LO, HI)
            co, z = env.reals(p + "co", 1, 180.0, 300.0), np.array([30.0])
        else:
            n, t, co, z = (np.full(shape, v) for v in (310.03, 290.04, 260.0, 30.0))
        kw = {"tb_ir_co2": wrap(env, co, form)} if env.bool(p + "co2") else {}
        if not sym:
            kw["lut"] = {"tb": lut["tb"], "radiance": np.linspace(1e3, 4e6, NTAB)}
        calc.reflectance_from_tbs(wrap(env, z, form), wrap(env, n, form), wrap(env, t, form), **kw)
        if env.bool(p + "emissive"):
            calc.emissive_part_3x(tb=env.bool(p + "tb"))
    n, t, z = env.reals("nir", 1, 250.05, 300.0), env.reals("th", 1, 250.05, 300.0), env.reals("sz", 1, 0.0, 60.0)
    kw = {}
    corr = 1.0
    if co2:
        co = env.reals("co", 1, 180.0, 300.0)
        kw["tb_ir_co2"] = wrap(env, co, forms)
        u = (0.75 * t[0] + 0.25 * co[0]) / t[0]
        corr = u * u * u * u
    got = calc.reflectance_from_tbs(wrap(env, z, forms), wrap(env, n, forms), wrap(env, t, forms), lut=lut, **kw)
    rn, rt = table_radiance(env, lut, n[0]), table_radiance(env, lut, t[0])
    want = reflectance(env, rn, rt, z[0], flux, corr)
    env.assert_close("reflectance of the last call", got, [want], rtol=1e-6, atol=1e-9)
    env.assert_close("emissive part of the last call", calc.emissive_part_3x(tb=False),
                     [rn if env.isnan(want) else rt * (1 - want)], rtol=1e-6, atol=1e-3)
    env.assert_close("the solar flux is kept", [calc.solar_flux], [flux])
    env.assert_true("limits are kept", calc.masking_limit == 85.0 and calc.sunz_threshold == 85.0)


def ownlut(env, form, nbefore):
    """A table given with a call is used for that call only."""
    rsr(env)
    tab = env.table("rad", 2100, 0.0, 5.0e6)
    tb = 150.0 + 0.1 * np.arange(2100)
    env.write_lut(str(env.lut_dir / "tb2rad_lut_imaginary-1_someinst_ch20.npz"), tb=tb, radiance=tab)
    flux = env.real("flux", 1.0, 5.0)
    calc = env.mod(NIR).Calculator("Imaginary-1", "someinst", "ch20", solar_flux=flux)
    for c in range(nbefore):
        p = "h%d." % c
        kind = env.choice(p + "lut", ["none", "other", "false", "own"])
        kw = {"none": {"lut": None}, "false": {"lut": False}, "own": {},
              "other": {"lut": {"tb": tb, "radiance": np.linspace(1e3, 4e6, 2100)}}}[kind]
        calc.reflectance_from_tbs(*(wrap(env, np.array([v]), form) for v in (30.0, 310.03, 290.04)), **kw)
    n, t, z = env.reals("nir", 1, 160.05, 350.0), env.reals("th", 1, 160.05, 350.0), env.reals("sz", 1, 0.0, 84.0)
    got = calc.reflectance_from_tbs(wrap(env, z, form), wrap(env, n, form), wrap(env, t, form))
    rad = [env.lookup(tab, env.floor(x * 10.0, eps=1e-7) - 1500) for x in (n[0], t[0])]
    env.assert_close("the calculator's own table is used", got, [reflectance(env, rad[0], rad[1], z[0], flux)], rtol=1e-6, atol=1e-9)


def givenflux(env):
    """A solar flux given is the one used, whatever it is."""
    rsr(env)
    env.write_lut(str(env.lut_dir / "tb2rad_lut_imaginary-1_someinst_ch20.npz"), tb=150.0 + 0.1 * np.arange(2100), radiance=np.ones(2100))
    flux = env.choice("flux", [0, 0.0, "real"])
    if flux == "real":
        flux = env.real("f", 0.0, 10.0)
    calc = env.mod(NIR).Calculator("Imaginary-1", "someinst", "ch20", solar_flux=flux)
    env.assert_close("the solar flux given", [calc.solar_flux], [flux])


def sym_resp(env, name):
    return [env.real("%s.r%d" % (name, i), 0.1, 1.0) for i in range(4)]


def table_values(env, resp, wl=W4):
    """Normalised band radiances at the probed entries (concrete Planck values, symbolic responses)."""
    bb = env.mod("blackbody")
    xs = [w * 1e-6 for w in wl]
    out = []
    for k in PROBE:
        t = 150.0 + 0.1 * k
        out.append(trapz([planck_law(env, bb, x, t, "wavelength") * r for x, r in zip(xs, resp)], xs) / trapz(resp, xs))
    return out


# (platform, instrument, band argument, detector)
SETS = {
    "detector": [("P-1", "inst", "ch20", "det-1"), ("P-1", "inst", "ch20", "det-2"), ("P-1", "inst", "ch20", "det-3")],
    "platform": [("P-1", "inst", "ch20", "det-1"), ("P-2", "inst", "ch20", "det-1"), ("P-12", "inst", "ch20", "det-1")],
    "instrument": [("P-1", "inst", "ch20", "det-1"), ("P-1", "other", "ch20", "det-1")],
    "band": [("P-1", "inst", "ch20", "det-1"), ("P-1", "inst", "ch21", "det-1")],
}


def calculators(env, which, order):
    """Calculators that share a table directory use the table of their own band and detector."""
    combos = SETS[which]
    resp, bands = {}, {}
    for i, (p, ins, b, d) in enumerate(combos):
        resp[p, ins, b, d] = sym_resp(env, "s%d" % i)
        bands.setdefault((p, ins), {}).setdefault(b, {})[d] = {
            "wavelength": np.array(W4), "response": env.array(resp[p, ins, b, d]), "central_wavelength": 3.75}
    for (p, ins), bs in bands.items():
        env.write_rsr(p, ins, bs)
    nir = env.mod(NIR)
    calcs = []
    for i in order:
        p, ins, b, d = combos[i]
        calcs.append((combos[i], nir.Calculator(p, ins, b, detector=d, solar_flux=2.0)))
    for key, c in calcs:
        want = table_values(env, resp[key])
        got = env.flat(c.lut["radiance"])
        env.assert_true("the table has 2100 entries", len(got) == 2100)
        env.assert_close("the calculator uses the table of its own band", [got[k] for k in PROBE], want, rtol=1e-7)
        env.assert_close("table temperatures", [float(np.asarray(c.lut["tb"])[k]) for k in PROBE],
                         [150.0 + 0.1 * k for k in PROBE])


def recreate(env):
    """A second calculator reads the table that the first one made, and gives the same reflectances."""
    resp = sym_resp(env, "s")
    env.write_rsr("P-1", "inst", {"ch20": {"det-1": {"wavelength": np.array(W4), "response": env.array(resp),
                                                    "central_wavelength": 3.75}}})
    nir = env.mod(NIR)
    a = nir.Calculator("P-1", "inst", "ch20", solar_flux=2.0)
    import os
    files = sorted(os.listdir(env.lut_dir))
    env.assert_true("the table is stored in the table directory", len(files) == 1, str(files))
    b = nir.Calculator("P-1", "inst", "ch20", solar_flux=2.0)
    env.assert_equal("no other table is made", sorted(os.listdir(env.lut_dir)), files)
    ga, gb = env.flat(a.lut["radiance"]), env.flat(b.lut["radiance"])
    env.assert_close("same table", [gb[k] for k in PROBE], [ga[k] for k in PROBE], rtol=1e-12)
    env.assert_close("radiances of the table", [ga[k] for k in PROBE], table_values(env, resp), rtol=1e-7)


def from_config(env, kind, where):
    """The table named in the configuration is the one that is used."""
    rsr(env)
    other = env.scratch / "elsewhere"
    if where != "missing":
        other.mkdir()
    name = str(other / ("my_lut" + (".npz" if where == "npz" else "")))
    conf = {"rsr_dir": str(env.rsr_dir), "rayleigh_dir": str(env.ray_dir), "tb2rad_dir": str(env.lut_dir),
            "download_from_internet": False}
    if kind == "dict":
        conf["Imaginary-1-someinst"] = {"tb2rad_lut_filename": {"ch20": name, "ch31": str(other / "wrong")}}
    elif kind == "other-band":
        conf["Imaginary-1-someinst"] = {"tb2rad_lut_filename": {"ch31": str(other / "wrong")}}
    elif kind == "other-platform":
        conf["Imaginary-2-someinst"] = {"tb2rad_lut_filename": name}
    else:
        conf["Imaginary-1-someinst"] = {"tb2rad_lut_filename": name}
    env.set_config(conf)
    tab = env.table("rad", 2100, 0.0, 5.0e6)
    fn = other / "my_lut.npz"
    if where == "missing":
        fn = env.lut_dir / "my_lut.npz"
    if kind in ("other-band", "other-platform"):
        fn = env.lut_dir / "tb2rad_lut_imaginary-1_someinst_ch20.npz"
    tb = 150.0 + 0.1 * np.arange(2100)
    env.write_lut(str(fn), tb=tb, radiance=tab)
    if kind in ("other-band", "other-platform") and where != "missing":
        env.write_lut(str(other / "my_lut.npz"), tb=tb, radiance=tab * 2)
        env.write_lut(str(other / "wrong.npz"), tb=tb, radiance=tab * 3)
    calc = env.mod(NIR).Calculator("Imaginary-1", "someinst", "ch20", solar_flux=2.0)
    flux = 2.0
    n, t, z = env.reals("nir", 1, 160.05, 350.0), env.reals("th", 1, 160.05, 350.0), env.reals("sz", 1, 0.0, 84.0)
    rad = [env.lookup(tab, env.floor(x * 10.0, eps=1e-7) - 1500) for x in (n[0], t[0])]
    want = reflectance(env, rad[0], rad[1], z[0], flux)
    got = calc.reflectance_from_tbs(z, n, t)
    env.assert_close("the configured table is used", got, [want], rtol=1e-6, atol=1e-9)


def limits(env, by):
    """Only bands between 3.5 and 3.95 micrometre are supported."""
    cw = env.real("cw", 3.0, 4.5)
    inside = env.le(3.5, cw, exact=True) and env.le(cw, 3.95, exact=True)
    nir = env.mod(NIR)
    mid = env.choice("mid", [3.52, 3.75, 3.93]) if by != "name" else None
    env.write_rsr("P-1", "inst", {"ch20": {"det-1": {"wavelength": np.array(W4), "response": np.array([0.1, 1.0, 0.9, 0.2]),
                                                    "central_wavelength": cw if by == "name" else mid}}})
    lut = env.lut_dir / "tb2rad_lut_p-1_inst_ch20.npz"
    env.write_lut(str(lut), tb=150.0 + 0.1 * np.arange(2100), radiance=np.ones(2100))
    if by == "name":
        bad = env.raises(NotImplementedError, nir.Calculator, "P-1", "inst", "ch20", solar_flux=1.0)
    else:
        env.assume(cw > mid - 0.09)
        env.assume(cw < mid + 0.09)
        bad = env.raises((NotImplementedError, AttributeError), nir.Calculator, "P-1", "inst", cw, solar_flux=1.0)
    env.assert_true("a band is refused exactly outside 3.5-3.95 micrometre", bad != inside)


def defaultflux(env, ncalcs):
    """Without a solar flux the calculator derives it from the response of its band and detector, whatever calculators were made before."""
    tb = 150.0 + 0.1 * np.arange(2100)
    combos = [("P-1", "ch20", None), ("P-1", "ch20", "det-1"), ("P-1", "ch20", "det-2"), ("P-1", "ch21", None), ("P-2", "ch20", None)]
    resp = {}
    for p in ("P-1", "P-2"):
        bands = {}
        for b in ("ch20", "ch21"):
            for d in ("det-1", "det-2"):
                resp[p, b, d] = sym_resp(env, p + b + d)
                bands.setdefault(b, {})[d] = {"wavelength": np.array(W4), "response": env.array(resp[p, b, d]), "central_wavelength": 3.75}
                env.write_lut(str(env.lut_dir / ("tb2rad_lut_%s_inst_%s%s.npz" % (p.lower(), b, "" if d == "det-1" else "_" + d))), tb=tb,
                              radiance=np.ones(2100))
        env.write_rsr(p, "inst", bands)
    # the flux is linear in the response: one flux for each point of the response
    solar = env.mod("solar").SolarIrradianceSpectrum(dlambda=0.0005)
    unit = [solar.inband_solarflux({"wavelength": np.array(W4), "response": np.eye(4)[k]}) for k in range(4)]
    calcs = []
    for k in range(ncalcs):
        p, b, d = env.choice("calc%d" % k, combos)
        calcs.append(((p, b, d), env.mod(NIR).Calculator(p, "inst", b, **({"detector": d} if d else {}))))
    for (p, b, d), calc in calcs:
        want = sum(u * r for u, r in zip(unit, resp[p, b, d or "det-1"]))
        env.assert_close("in-band solar flux of the band and detector", [calc.solar_flux], [want], rtol=1e-9)


def configs(tier):
    th = tier == "thorough"
    out = [Cfg("recreate", recreate, must_reach=["same table"], budget=100),
           Cfg("givenflux", givenflux, must_reach=["the solar flux given"]),
           Cfg("defaultflux", defaultflux, dict(ncalcs=3 if th else 2), must_reach=["in-band solar flux of the band and detector"], budget=100,
               bounds="4-point response, 2-3 calculators")]
    for forms in ("numpy", "dask"):
        out.append(Cfg("ownlut-" + forms, ownlut, dict(form=forms, nbefore=2 if th else 1), must_reach=["the calculator's own table is used"],
                       budget=1800 if th else 100, bounds="2-3 calls"))
    for forms in ("numpy", "dask"):
        for co2 in (False, True):
            for n in (2, 3) if th else (2,):
                out.append(Cfg("history-%d-%s-%s" % (n, forms, "co2" if co2 else "plain"), history,
                               dict(forms=forms, ncalls=n, co2=co2), must_reach=["reflectance of the last call"],
                               budget=1800 if th else 200, bounds="%d calls" % n))
    import itertools
    for which in SETS:
        for order in itertools.permutations(range(len(SETS[which]))):
            out.append(Cfg("calculators-%s-%s" % (which, "".join(map(str, order))), calculators, dict(which=which, order=order),
                           must_reach=["the calculator uses the table of its own band"], budget=100,
                           bounds="%d calculators" % len(order)))
    for kind in ("dict", "str", "other-band", "other-platform"):
        for where in ("npz", "bare", "missing"):
            if where == "missing" and kind.startswith("other"):
                continue
            out.append(Cfg("config-%s-%s" % (kind, where), from_config, dict(kind=kind, where=where),
                           must_reach=["the configured table is used"], budget=150, bounds="1 pixel, 2100 entries"))
    for by in ("name", "wavelength"):
        out.append(Cfg("limits-" + by, limits, dict(by=by), must_reach=["a band is refused exactly outside 3.5-3.95 micrometre"],
                       budget=60))
    return out
