"""C11: binned statistics over N-d samples."""
import warnings

import numpy as np
from skbeam.core.accumulators.binned_statistic import (
    BinnedStatisticDD, BinnedStatistic1D, BinnedStatistic2D, RadialBinnedStatistic, RPhiBinnedStatistic)
from skbeam.core.utils import angle_grid, bin_edges_to_centers, radial_grid

STD = ("mean", "median", "count", "sum", "std")


def prepare(sample, statistic, bins, range, mask):
    try:
        N, D = sample.shape
    except (AttributeError, ValueError):
        sample = np.atleast_2d(sample).T
        N, D = sample.shape
    if mask is not None:
        sample = np.array(sample, dtype=float)
    try:
        if len(bins) != D:
            raise AttributeError
    except TypeError:
        bins = D * [bins]
    if range is None:
        lo = np.atleast_1d(np.array(sample.min(0), float))
        hi = np.atleast_1d(np.array(sample.max(0), float))
    else:
        lo = np.zeros(D)
        hi = np.zeros(D)
        for i in np.arange(D):
            lo[i], hi[i] = range[i]
    for i in np.arange(len(lo)):
        if lo[i] == hi[i]:
            lo[i] = lo[i] - 0.5
            hi[i] = hi[i] + 0.5
    nbin = np.empty(D, int)
    edges = D * [None]
    centers = D * [None]
    width = D * [None]
    for i in np.arange(D):
        if np.isscalar(bins[i]):
            nbin[i] = bins[i] + 2
            edges[i] = np.linspace(lo[i], hi[i], nbin[i] - 1)
        else:
            edges[i] = np.asarray(bins[i], float)
            nbin[i] = len(edges[i]) + 1
        centers[i] = bin_edges_to_centers(edges[i])
        width[i] = np.diff(edges[i])
    nbin = np.asarray(nbin)
    place = {}
    for i in np.arange(D):
        s = sample[:, i]
        if mask is not None:
            s[mask == 0] = edges[i][0] - 0.01 * (1 + np.fabs(edges[i][0]))
        place[i] = np.digitize(s, edges[i])
    for i in np.arange(D):
        decimal = int(-np.log10(width[i].min())) + 6
        last = np.where(np.around(sample[:, i], decimal) == np.around(edges[i][-1], decimal))[0]
        place[i][last] -= 1
    order = nbin.argsort()
    xy = np.zeros(N, int)
    for i in np.arange(0, D - 1):
        xy += place[order[i]] * nbin[order[i + 1:]].prod()
    xy += place[order[-1]]
    if not callable(statistic) and statistic not in STD:
        raise ValueError
    return D, nbin, edges, centers, order, xy


def finish(result, D, nbin, order):
    result = result.reshape(np.sort(nbin))
    ni = np.copy(order)
    for i in np.arange(nbin.size):
        j = ni.argsort()[i]
        result = result.swapaxes(i, j)
        ni[i], ni[j] = ni[j], ni[i]
    result = result[tuple(D * [slice(1, -1)])]
    if (result.shape != nbin - 2).any():
        raise RuntimeError
    return result


def evaluate(prep, values, statistic):
    D, nbin, edges, centers, order, xy = prep
    result = np.empty(nbin.prod(), float)
    count = np.bincount(xy, None)
    if statistic == "mean":
        result.fill(np.nan)
        tot = np.bincount(xy, values)
        a = count.nonzero()
        result[a] = tot[a] / count[a]
    elif statistic == "std":
        result.fill(0)
        tot = np.bincount(xy, values)
        tot2 = np.bincount(xy, values ** 2)
        a = count.nonzero()
        result[a] = np.sqrt(tot2[a] / count[a] - (tot[a] / count[a]) ** 2)
    elif statistic == "count":
        result.fill(0)
        result[np.arange(len(count))] = count
    elif statistic == "sum":
        result.fill(0)
        tot = np.bincount(xy, values)
        result[np.arange(len(tot))] = tot
    elif callable(statistic) or statistic == "median":
        if statistic == "median":
            f = np.median
        else:
            f = statistic
        with warnings.catch_warnings():
            warnings.filterwarnings("ignore", category=RuntimeWarning)
            old = np.seterr(invalid="ignore")
            try:
                null = f([])
            except Exception:
                null = np.nan
            np.seterr(**old)
        result.fill(null)
        v = values[xy.argsort()]
        i = 0
        for j, k in enumerate(count):
            if k > 0:
                result[j] = f(v[i:i + k])
            i += k
    return finish(result, D, nbin, order)


# ---- placement ---------------------------------------------------------------
def grid_driver(sample, statistic, bins, range, mask):
    b = BinnedStatisticDD(sample, statistic, bins, range, mask)
    return b.bin_edges, b.bin_centers, b.xy, b.statistic


@spec(driver="grid_driver")
def grid(sample, statistic, bins, range, mask):
    D, nbin, edges, centers, order, xy = prepare(sample, statistic, bins, range, mask)
    return edges, centers, xy, statistic


def grid_mask_driver(sample, bins, range, mask):
    b = BinnedStatisticDD(sample, bins=bins, range=range, mask=mask)
    return b.bin_edges, b.bin_centers, b.xy, b.statistic


@spec(driver="grid_mask_driver")
def grid_mask(sample, bins, range, mask):
    D, nbin, edges, centers, order, xy = prepare(sample, "mean", bins, range, mask)
    return edges, centers, xy, "mean"


def binmap_driver(sample, bins):
    return BinnedStatisticDD(sample, bins=bins).binmap


@spec(driver="binmap_driver")
def binmap(sample, bins):
    D, nbin, edges, centers, order, xy = prepare(sample, "mean", bins, None, None)
    N, = xy.shape
    out = np.zeros((D, N), dtype=int)
    den = 1
    for i in range(D):
        k = D - i - 1
        m = xy // den
        if i < D - 1:
            m = m % nbin[order[k - 1]]
        out[k] = m
        den *= nbin[order[k]]
    return out


# ---- evaluation --------------------------------------------------------------
def mean_driver(sample, values, bins, range, mask):
    return BinnedStatisticDD(sample, bins=bins, range=range, mask=mask)(values)


@spec(driver="mean_driver")
def mean(sample, values, bins, range, mask):
    return evaluate(prepare(sample, "mean", bins, range, mask), values, "mean")


def default_driver(sample, values, statistic):
    return BinnedStatisticDD(sample, statistic=statistic)(values)


@spec(driver="default_driver")
def default(sample, values, statistic):
    return evaluate(prepare(sample, statistic, 10, None, None), values, statistic)


def override_driver(sample, values, statistic):
    return BinnedStatisticDD(sample, statistic="sum")(values, statistic)


@spec(driver="override_driver")
def override(sample, values, statistic):
    return evaluate(prepare(sample, "sum", 10, None, None), values, "sum" if statistic is None else statistic)


def again_driver(sample, values, more):
    b = BinnedStatisticDD(sample, statistic="count")
    a = b(values)
    return a, b(more, "median"), b(more), b(more, "std")


@spec(driver="again_driver")
def again(sample, values, more):
    p = prepare(sample, "count", 10, None, None)
    a = evaluate(p, values, "count")
    return a, evaluate(p, more, "median"), evaluate(p, more, "count"), evaluate(p, more, "std")


def setter_driver(sample, statistic):
    b = BinnedStatisticDD(sample)
    b.statistic = statistic
    return b.statistic


@spec(driver="setter_driver")
def setter(sample, statistic):
    prepare(sample, "mean", 10, None, None)
    if not callable(statistic) and statistic not in STD:
        raise ValueError
    return statistic


# ---- front ends ---------------------------------------------------------------
def prepare1(x, statistic, bins, range, mask):
    try:
        N = len(bins)
    except TypeError:
        N = 1
    if N != 1:
        bins = [np.asarray(bins, float)]
    if range is not None:
        if len(range) == 2:
            range = [range]
    return prepare([x], statistic, bins, range, mask)


def prepare2(x, y, statistic, bins, range, mask):
    try:
        N = len(bins)
    except TypeError:
        N = 1
    if N != 1 and N != 2:
        e = np.asarray(bins, float)
        bins = [e, e]
    return prepare([x, y], statistic, bins, range, mask)


def one_driver(x, values, statistic, bins, range, mask):
    b = BinnedStatistic1D(x, statistic, bins, range, mask)
    return b.bin_edges, b.bin_centers, b(values)


@spec(driver="one_driver")
def one(x, values, statistic, bins, range, mask):
    p = prepare1(x, statistic, bins, range, mask)
    return p[2][0], p[3][0], evaluate(p, values, statistic)


def two_driver(x, y, values, statistic, bins, range, mask):
    b = BinnedStatistic2D(x, y, statistic, bins, range, mask)
    return b.bin_edges, b.bin_centers, b(values)


@spec(driver="two_driver")
def two(x, y, values, statistic, bins, range, mask):
    p = prepare2(x, y, statistic, bins, range, mask)
    return p[2], p[3], evaluate(p, values, statistic)


def shaped(shape, mask):
    if mask is not None:
        if mask.shape != tuple(shape):
            raise ValueError
        mask = mask.reshape(-1)
    return mask


def radial_driver(shape, values, bins, range, origin, mask, r_map, statistic):
    b = RadialBinnedStatistic(shape, bins, range, origin, mask, r_map, statistic)
    return b.bin_edges, b.bin_centers, b(values)


@spec(driver="radial_driver")
def radial(shape, values, bins, range, origin, mask, r_map, statistic):
    if origin is None:
        origin = ((shape[0] - 1) / 2, (shape[1] - 1) / 2)
    if r_map is None:
        r_map = radial_grid(origin, shape)
    mask = shaped(shape, mask)
    p = prepare1(r_map.reshape(-1), statistic, bins, range, mask)
    if values.shape != tuple(shape):
        raise ValueError
    return p[2][0], p[3][0], evaluate(p, values.reshape(-1), statistic)


def rphi_driver(shape, values, bins, range, origin, mask, r_map, statistic):
    b = RPhiBinnedStatistic(shape, bins, range, origin, mask, r_map, statistic)
    return b.bin_edges, b.bin_centers, b(values)


@spec(driver="rphi_driver")
def rphi(shape, values, bins, range, origin, mask, r_map, statistic):
    if origin is None:
        origin = ((shape[0] - 1) / 2, (shape[1] - 1) / 2)
    if r_map is None:
        r_map = radial_grid(origin, shape)
    phi = angle_grid(origin, shape)
    mask = shaped(shape, mask)
    p = prepare2(r_map.reshape(-1), phi.reshape(-1), statistic, bins, range, mask)
    if values.shape != tuple(shape):
        raise ValueError
    return p[2], p[3], evaluate(p, values.reshape(-1), statistic)


def rmean_driver(shape, values, mask):
    return RadialBinnedStatistic(shape, mask=mask)(values)


@spec(driver="rmean_driver")
def rmean(shape, values, mask):
    r_map = radial_grid(((shape[0] - 1) / 2, (shape[1] - 1) / 2), shape)
    mask = shaped(shape, mask)
    p = prepare1(r_map.reshape(-1), "mean", 10, None, mask)
    if values.shape != tuple(shape):
        raise ValueError
    return evaluate(p, values.reshape(-1), "mean")
