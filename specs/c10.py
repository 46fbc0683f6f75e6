"""C10: binning conventions (1-D binning, radial binning, 3-D gridding front end)."""
import numpy as np
import scipy.stats as sts
from skbeam.core.utils import bin_edges_to_centers
from skbeam.ext import ctrans


@spec("skbeam.core.utils:bin_1D")
def bin_1D(x, y, nx=None, min_x=None, max_x=None):
    lo = np.min(x) if min_x is None else min_x
    hi = np.max(x) if max_x is None else max_x
    n = int(hi - lo) if nx is None else nx
    bins = np.linspace(lo, hi, n + 1)
    return bins, np.histogram(x, bins=bins, weights=y)[0], np.histogram(x, bins=bins)[0]


@spec("skbeam.core.utils:bin_grid")
def bin_grid(image, r_array, pixel_sizes, statistic="mean", mask=None, bins=None):
    if mask is None:
        mask = np.ones(image.shape, dtype=int).astype(bool)
    if bins is None:
        res = np.hypot(*pixel_sizes)
        bins = np.arange(np.min(r_array) - res / 2, np.max(r_array) + res / 2, res)
    stat, edges, _ = sts.binned_statistic(r_array[mask], image[mask], statistic=statistic, bins=bins)
    return (edges[1:] + edges[:-1]) / 2, stat


@spec("skbeam.core.utils:grid3d")
def grid3d(q, img_stack, nx=None, ny=None, nz=None, xmin=None, xmax=None, ymin=None, ymax=None, zmin=None, zmax=None,
           binary_mask=None):
    img = np.asarray(img_stack)
    if binary_mask is None or binary_mask.shape == img.shape:
        mask = binary_mask
    elif binary_mask.shape == img[0].shape:
        mask = np.tile(np.ravel(binary_mask), img.shape[0])
    else:
        raise ValueError
    q = np.atleast_2d(q)
    if q.ndim != 2:
        raise ValueError
    if q.shape[1] != 3:
        raise ValueError
    lo = np.min(q, axis=0)
    hi = np.max(q, axis=0)
    hi = hi + np.spacing(hi)
    n = [100, 100, 100]
    if nx is not None:
        n[0] = nx
    if ny is not None:
        n[1] = ny
    if nz is not None:
        n[2] = nz
    if xmin is not None:
        lo[0] = xmin
    if ymin is not None:
        lo[1] = ymin
    if zmin is not None:
        lo[2] = zmin
    if xmax is not None:
        hi[0] = xmax
    if ymax is not None:
        hi[1] = ymax
    if zmax is not None:
        hi[2] = zmax
    bounds = np.array([lo, hi, n]).T
    data = np.insert(q, 3, np.ravel(img), axis=1)
    if mask is not None:
        data = data[np.ravel(mask)]
    total, total2, occ, err = ctrans.grid3d(data, lo, hi, n)
    return total / occ, occ, err, bounds
