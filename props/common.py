"""Shared pieces of the harnesses."""
import numpy as np

from sx.run import Cfg   # noqa: F401

F32 = np.dtype("float32")
F64 = np.dtype("float64")

H, K, C = 6.62607015e-34, 1.380649e-23, 2.99792458e8


def wrap(env, a, form, chunks=None):
    """Present an array as numpy, dask or xarray."""
    if form == "numpy":
        return a
    if form == "dask":
        return env.dask(a, chunks)
    if form == "xarray":
        return env.xarray(env.dask(a, chunks))
    if form == "xarray-numpy":
        return env.xarray(a)
    raise ValueError(form)
