"""C27: integrating a spectrum over regions of interest."""
import numpy as np
from scipy.integrate import simpson


@spec("skbeam.core.spectroscopy:integrate_ROI")
def integrate_ROI(x, y, x_min, x_max):
    x = np.asarray(x)
    y = np.asarray(y)
    if x.shape != y.shape:
        raise ValueError
    s = np.sign(np.diff(x))
    if not np.all(s == s[0]):
        raise ValueError
    if s[0] == -1:
        x = x[::-1]
        y = y[::-1]
    lo = np.atleast_1d(x_min).ravel()
    hi = np.atleast_1d(x_max).ravel()
    if len(lo) != len(hi):
        raise ValueError
    if np.any(lo >= hi):
        raise ValueError
    if np.any(lo < x[0]):
        raise ValueError
    if np.any(hi > x[-1]):
        raise ValueError
    total = 0
    for b, t in zip(x.searchsorted(lo), x.searchsorted(hi) + 1):
        total += simpson(y[b:t], x=x[b:t])
    return total


@spec("skbeam.core.spectroscopy:integrate_ROI_spectrum")
def integrate_ROI_spectrum(bin_edges, counts, x_min, x_max):
    e = np.asarray(bin_edges)
    return integrate_ROI(e[:-1] + np.diff(e) / 2, counts, x_min, x_max)
