"""SNIP background."""
import numpy as np
import scipy.signal


@spec("skbeam.core.fitting.background:snip_method")
def snip_method(spectrum, e_off, e_lin, e_quad, xmin=0, xmax=4096, epsilon=2.96, width=0.5, decrease_factor=np.sqrt(2),
                spectral_binning=None, con_val=None, iter_num=None, width_threshold=0.5):
    if con_val is None:
        con_val = 3 if spectral_binning is None else 5
    if iter_num is None:
        iter_num = 3 if spectral_binning is None else 5
    bg = np.array(spectrum)
    n = bg.size
    e = np.arange(n, dtype=np.float64)
    if spectral_binning is not None:
        e = e * spectral_binning
    e = e_off + e * e_lin + e ** 2 * e_quad
    k = 2 * np.sqrt(2 * np.log(2))
    var = (e_off / k) ** 2 + e * epsilon * e_lin
    var[var < 0] = 0
    fwhm = k * np.sqrt(var)
    box = scipy.signal.windows.boxcar(con_val)
    bg = scipy.signal.convolve(bg, box, mode="same") / box.sum()
    w = width * fwhm / e_lin
    if spectral_binning is not None and spectral_binning > 0:
        w = w / 2
    bg = np.log(np.log(bg + 1) + 1)
    index = np.arange(n)
    lo = np.max([xmin, 0])
    hi = np.min([xmax, n - 1])
    for j in range(iter_num):
        t = (bg[np.clip(index - w, lo, hi).astype(np.int64)] + bg[np.clip(index + w, lo, hi).astype(np.int64)]) / 2
        m = bg > t
        bg[m] = t[m]
    cur = w
    while np.amax(cur) >= width_threshold:
        t = (bg[np.clip(index - cur, lo, hi).astype(np.int64)] + bg[np.clip(index + cur, lo, hi).astype(np.int64)]) / 2
        m = bg > t
        bg[m] = t[m]
        cur = cur / decrease_factor
    bg = np.exp(np.exp(bg) - 1) - 1
    bg[np.where(~np.isfinite(bg))] = 0
    return bg
