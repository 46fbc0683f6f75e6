"""C25: peak candidates, filtering and refinement."""
from collections import deque

import numpy as np
from skbeam.core import feature
from skbeam.core.feature import PeakRejection


@spec("skbeam.core.fitting.funcs:fit_quad_to_peak")
def fit_quad_to_peak(x, y):
    n = len(x)
    if n < 3:
        raise Exception
    beta, _, _, _ = np.linalg.lstsq(np.vstack((x ** 2, x, np.ones(n))).T, y, rcond=None)
    err = np.sum((np.polyval(beta, x) - y) ** 2)
    tot = np.sum((y - np.mean(y)) ** 2)
    a, b, c = beta[0], beta[1], beta[2]
    return (a, -b / (2 * a), c - a * (b / (2 * a)) ** 2), 1 - err / tot


@spec("skbeam.core.feature:refine_quadratic")
def refine_quadratic(x, y, Rval_thresh=None):
    beta, r2 = fit_quad_to_peak(x, y)
    if Rval_thresh is not None and r2 < Rval_thresh:
        raise PeakRejection()
    return beta[1], beta[2]


@spec("skbeam.core.feature:refine_log_quadratic")
def refine_log_quadratic(x, y, Rval_thresh=None):
    beta, r2 = fit_quad_to_peak(x, np.log(y))
    if Rval_thresh is not None and r2 < Rval_thresh:
        raise PeakRejection()
    return beta[1], np.exp(beta[2])


@spec("skbeam.core.feature:filter_n_largest")
def filter_n_largest(y, cands, N):
    cands = np.asarray(cands)
    if int(N) <= 0:
        raise ValueError
    o = np.argsort(y[cands])
    if len(cands) < int(N):
        return cands[o][::-1]
    return cands[o[-int(N):]][::-1]


@spec("skbeam.core.feature:filter_peak_height")
def filter_peak_height(y, cands, thresh, window=5):
    y = np.asarray(y)
    out = []
    for k in cands:
        if np.ptp(y[np.max([0, k - window]):np.min([len(y), k + window + 1])]) > thresh:
            out.append(k)
    return np.array(out)


@spec("skbeam.core.feature:peak_refinement")
def peak_refinement(x, y, cands, window, refine_function, refine_args=None):
    x = np.asarray(x)
    y = np.asarray(y)
    window = int(window)
    if refine_args is None:
        refine_args = dict()
    out = deque()
    for k in np.asarray(cands, dtype=int):
        s = slice(np.max([0, k - window]), np.min([len(x), k + window + 1]))
        try:
            r = refine_function(x[s], y[s], **refine_args)
        except PeakRejection:
            continue
        else:
            out.append(r)
    return tuple([np.array(c) for c in zip(*out)])


def choices_driver():
    return feature.peak_refinement.refine_function


@spec(driver="choices_driver")
def choices():
    return [feature.refine_log_quadratic, feature.refine_quadratic]


@spec("skbeam.core.spectroscopy:find_largest_peak")
def find_largest_peak(x, y, window=None):
    x = np.asarray(x)
    y = np.asarray(y)
    j = np.argmax(y)
    if window is not None:
        roi = slice(max(j - window, 0), j + window + 1)
    else:
        roi = slice(0, -1)
    (w, x0, y0), r2 = fit_quad_to_peak(x[roi], np.log(y[roi]))
    return x0, np.exp(y0), 1 / np.sqrt(-2 * w)


@spec("skbeam.core.spectroscopy:align_and_scale")
def align_and_scale(energy_list, counts_list, pk_find_fun=None):
    if pk_find_fun is None:
        pk_find_fun = find_largest_peak
    base = None
    es = []
    cs = []
    for e, c in zip(energy_list, counts_list):
        e0, top, sigma = pk_find_fun(e, c)
        if base is None:
            base = sigma
        es.append((e - e0) * base / sigma)
        cs.append(c)
    return es, cs
