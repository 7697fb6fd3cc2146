"""The near-infrared reflectance calculator and its oracle."""
import math

import numpy as np

W = [3.5, 3.6, 3.7, 3.8, 3.9, 4.0]
R = [0.0, 0.4, 1.0, 0.9, 0.3, 0.0]
R2 = [0.0, 0.9, 1.0, 0.2, 0.1, 0.0]
CW = 3.74
W1, R1 = [3.6, 3.74, 3.9], [0.0, 1.0, 0.0]     # one-line response, for the configurations without a table
INTEGRAL = sum((b - a) * (x + y) / 2 for a, b, x, y in zip(W[:-1], W[1:], R[:-1], R[1:])) * 1e-6
INTEGRAL1 = (W1[2] - W1[0]) / 2 * 1e-6
START, NTAB = 200.0, 1600      # the table covers 200 .. 360 K


def rsr(env, cw=CW, name="ch20", instrument="someinst", platform="Imaginary-1", dets=1, narrow=False):
    d = {"wavelength": np.array(W), "response": np.array(R), "central_wavelength": cw}
    if narrow:
        d = {"wavelength": np.array(W1), "response": np.array(R1), "central_wavelength": cw}
    d2 = {"wavelength": np.array(W), "response": np.array(R2), "central_wavelength": cw}
    d3 = {"wavelength": np.array(W) + 7.0, "response": np.array(R), "central_wavelength": 10.74}
    many = {"det-%d" % (i + 1): (d, d2)[i % 2] for i in range(dets)}
    env.write_rsr(platform, instrument, {name: many, "ch31": {k: d3 for k in many}})


def calculator(env, narrow=False, **kw):
    rsr(env, narrow=narrow)
    flux = env.real("flux", 1.0, 5.0)
    nir = env.mod("near_infrared_reflectance")
    tab = env.table("rad", NTAB, 0.0, 5.0e6)
    lut = {"tb": START + 0.1 * np.arange(NTAB), "radiance": tab}
    return nir.Calculator("Imaginary-1", "someinst", "ch20", solar_flux=flux, **kw), lut, flux


def table_radiance(env, lut, tb, dt=np.dtype("float64")):
    if env.isnan(tb):
        return float("nan")
    k = env.floor(tb * 10.0, eps=1e-4 if dt == np.dtype("float32") else 1e-7)
    return env.lookup(lut["radiance"], k - int(START * 10))


def direct_radiance(env, tb):
    """Normalised band radiance of the one-line response."""
    from props.c02 import planck_law
    if env.isnan(tb):
        return float("nan")
    return planck_law(env, env.mod("blackbody"), W1[1] * 1e-6, tb, "wavelength")


def reflectance(env, rad_nir, rad_th, sunz, flux, corr=1.0, threshold=85.0, limit=85.0, integral=None):
    """The documented reflectance, NaN where it is undefined."""
    nan = float("nan")
    integral = INTEGRAL if integral is None else integral
    if env.isnan(rad_nir) or env.isnan(rad_th) or env.isnan(sunz) or env.isnan(corr):
        return nan
    if limit is not None and (env.lt(sunz, 0.0, exact=True) or env.gt(sunz, limit, exact=True)):
        return nan
    z = sunz
    if env.lt(sunz, 0.0, exact=True):
        z = 0.0
    elif env.gt(sunz, threshold, exact=True):
        z = threshold
    th = rad_th * integral * corr
    solar = flux * env.cos(z * (math.pi / 180)) / math.pi
    if env.lt(solar - th, 0.005, gap=1e-6):
        return nan
    return (rad_nir * integral - th) / (solar - th)
