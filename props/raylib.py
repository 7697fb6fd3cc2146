"""Rayleigh look-up tables and their oracle."""
import math

import numpy as np

SUNSEC = {2: (1.0, 3.0), 3: (1.0, 5.0)}
SATSEC = {2: (1.0, 2.5), 3: (1.0, 3.0)}
AZI = (0.0, 180.0)


def write_lut(env, refl, wvls, nsun, nazi, nsat, aerosol="marine_clean_aerosol", atm="us-standard", uptodate=True, dt=None,
              sunmax=None, satmax=None):
    """refl: array (wavelength, sun, azimuth, satellite)."""
    u = env.mod("utils")
    d = env.ray_dir / aerosol
    d.mkdir(parents=True, exist_ok=True)
    if uptodate:
        v = u.ATM_CORRECTION_LUT_VERSION[aerosol]
        (d / v["filename"]).write_text(v["version"])
    dt = np.dtype(dt or "float64")
    g = grid(nsun, nazi, nsat, sunmax, satmax)
    fn = d / ("rayleigh_lut_%s.h5" % atm.replace(" ", "_"))
    with env.h5(fn, "w") as h:
        h.create_dataset("reflectance", data=refl)
        h.create_dataset("wavelengths", data=wvls if not isinstance(wvls, list) else env.array(wvls))
        h.create_dataset("azimuth_difference", data=g[1].astype(dt))
        h.create_dataset("sun_zenith_secant", data=g[0].astype(dt))
        h.create_dataset("satellite_zenith_secant", data=g[2].astype(dt))
    return fn


def grid(nsun, nazi, nsat, sunmax=None, satmax=None):
    return (np.linspace(1.0, sunmax or SUNSEC[nsun][1], nsun), np.linspace(0.0, 180.0, nazi),
            np.linspace(1.0, satmax or SATSEC[nsat][1], nsat))


def secant(env, angle, secmax):
    """Secant of a zenith angle that is limited to the range of the table; no angle counts as zero."""
    if env.isnan(angle):
        return 1.0
    limit = math.degrees(math.acos(1.0 / secmax))
    if env.lt(angle, 0.0, exact=True):
        return 1.0
    if env.lt(limit, angle, gap=1e-4):
        return secmax
    return 1.0 / env.cos(angle * (math.pi / 180.0))


def cell(env, x, coords):
    """Index of the lower node and the weight of the upper one."""
    n = len(coords)
    u = (x - float(coords[0])) / float(coords[-1] - coords[0]) * (n - 1)
    q = 0
    while q < n - 2 and env.le(q + 1, u, eps=1e-6):
        q += 1
    return q, u - q


def interpolate(env, table, sunz, satz, azid, nsun, nazi, nsat, sunmax=None, satmax=None):
    """Percent reflectance of a (sun, azimuth, satellite) table: linear in the secants and the azimuth difference."""
    g = grid(nsun, nazi, nsat, sunmax, satmax)
    if env.isnan(azid):
        return float("nan")
    s, a, v = secant(env, sunz, float(g[0][-1])), 180.0 - azid, secant(env, satz, float(g[2][-1]))
    (i, fi), (j, fj), (k, fk) = cell(env, s, g[0]), cell(env, a, g[1]), cell(env, v, g[2])
    acc = 0.0
    for di, wi in ((0, 1 - fi), (1, fi)):
        for dj, wj in ((0, 1 - fj), (1, fj)):
            for dk, wk in ((0, 1 - fk), (1, fk)):
                acc = acc + wi * wj * wk * table[i + di, j + dj, k + dk]
    return acc * 100


def clip(env, x, lo=0.0, hi=100.0):
    if env.isnan(x):
        return x
    if env.lt(x, lo, exact=True):
        return lo
    if env.lt(hi, x, exact=True):
        return hi
    return x


def relax(env, refl, red):
    """Above 20 % red reflectance the correction decreases linearly, to nothing at 100 %."""
    if env.isnan(red):
        return red
    if env.lt(red, 20.0, exact=True):
        return refl
    return (1 - (red - 20.0) / 80.0) * refl
