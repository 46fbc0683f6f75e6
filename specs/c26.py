"""C26: images built from radial profiles, ring centres, 1-D statistics."""
import numpy as np
import scipy.stats
from scipy.interpolate import RegularGridInterpolator
from spec_c13 import radial_grid, angle_grid


def corr(image):
    n = image.shape[1]
    norm = np.correlate(np.ones(n), np.ones(n), mode="full")
    est = [np.argmax(np.correlate(v, v[::-1], mode="full") / norm) / 2 for v in image]
    return np.histogram(est, bins=np.arange(0, n + 1))


@spec("skbeam.core.image:find_ring_center_acorr_1D")
def find_ring_center_acorr_1D(input_image):
    v, b = corr(input_image.T)
    w, c = corr(input_image)
    return b[np.argmax(v)], c[np.argmax(w)]


def fit_dims(radii, pixel_size):
    return (2 * int(np.max(radii / pixel_size[0]) + 0.5) + 1, 2 * int(np.max(radii / pixel_size[1]) + 0.5) + 1)


@spec("skbeam.core.image:construct_circ_avg_image")
def construct_circ_avg_image(radii, intensities, dims=None, center=None, pixel_size=(1, 1), left=None, right=0):
    if dims is None:
        if center is not None:
            raise ValueError
        dims = fit_dims(radii, pixel_size)
    if center is None:
        center = ((dims[0] - 1) / 2, (dims[1] - 1) / 2)
    return np.interp(radial_grid(center, dims, pixel_size), radii, intensities, left=left, right=right)


@spec("skbeam.core.image:construct_rphi_avg_image")
def construct_rphi_avg_image(radii, angles, image, mask=None, center=None, shape=None, pixel_size=(1, 1)):
    if mask is not None:
        if mask.shape != image.shape:
            raise ValueError
        image = np.array(image, dtype=float)
        image[np.where(mask == 0)] = np.nan
    if shape is None:
        if center is not None:
            raise ValueError
        shape = fit_dims(radii, pixel_size)
    if center is None:
        center = ((shape[0] - 1) / 2, (shape[1] - 1) / 2)
    first = angles[0]
    a = (angles - first) % (2 * np.pi)
    if len(np.where(np.diff(a) < 0)[0]) > 0:
        raise ValueError
    ap = np.concatenate(([a[-1] - 2 * np.pi], a, [a[0] + 2 * np.pi]))
    im = np.zeros((image.shape[0], image.shape[1] + 2))
    im[:, 0] = image[:, -1]
    im[:, 1:image.shape[1] + 1] = image
    im[:, -1] = image[:, 0]
    f = RegularGridInterpolator((radii, ap), im, bounds_error=False, fill_value=np.nan)
    r = radial_grid(center, shape, pixel_size).ravel()
    phi = (angle_grid(center, shape, pixel_size).ravel() - first) % (2 * np.pi)
    return f((r, phi)).reshape(shape)


@spec("skbeam.core.stats:statistics_1D")
def statistics_1D(x, y, stat="mean", nx=None, min_x=None, max_x=None):
    if min_x is None:
        min_x = np.min(x)
    if max_x is None:
        max_x = np.max(x)
    if nx is None:
        nx = 100
    bins = np.linspace(start=min_x, stop=max_x, num=nx + 1, endpoint=True)
    v, _, _ = scipy.stats.binned_statistic(x, y, statistic=stat, bins=bins)
    return bins, v
