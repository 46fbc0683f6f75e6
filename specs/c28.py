"""C28: geometric calibration from powder rings."""
import numpy as np
import scipy.signal
from itertools import tee
from skbeam.core.constants import calibration_standards
from skbeam.core import calibration
from spec_c10 import bin_1D
from spec_c13 import angle_grid, radial_grid, bin_edges_to_centers
from spec_c25 import filter_peak_height, peak_refinement, refine_log_quadratic


@spec("skbeam.core.calibration:estimate_d_blind")
def estimate_d_blind(name, wavelength, bin_centers, ring_average, window_size, max_peak_count, thresh):
    cal = calibration_standards[name]
    c = scipy.signal.argrelmax(ring_average, order=window_size)[0]
    c = filter_peak_height(ring_average, c, thresh * np.max(ring_average), window=window_size)
    px, py = peak_refinement(bin_centers, ring_average, c, window_size, refine_log_quadratic)
    t = np.tan(cal.convert_2theta(wavelength))
    n = np.min([len(t), len(px), max_peak_count])
    d = px[0:n] / t[0:n]
    return np.mean(d), np.std(d)


@spec("skbeam.core.utils:pairwise")
def pairwise(iterable):
    a, b = tee(iterable)
    next(b, None)
    return zip(a, b)


def names_driver():
    return calibration.estimate_d_blind.name


@spec(driver="names_driver")
def names():
    return list(calibration_standards)


@spec("skbeam.core.calibration:refine_center")
def refine_center(image, calibrated_center, pixel_size, phi_steps, max_peaks, thresh, window_size, nx=None, min_x=None,
                  max_x=None):
    if nx is None:
        nx = int(np.mean(image.shape) * 2)
    phi = angle_grid(calibrated_center, image.shape, pixel_size).ravel()
    r = radial_grid(calibrated_center, image.shape, pixel_size).ravel()
    v = image.ravel()
    edges = np.linspace(-np.pi, np.pi, phi_steps, endpoint=True)
    rings = []
    for a, b in pairwise(edges):
        m = (phi <= b) * (phi > a)
        bins, tot, cnt = bin_1D(r[m], v[m], nx=nx, min_x=min_x, max_x=max_x)
        ok = tot > 10
        avg = tot[ok] / cnt[ok]
        cands = scipy.signal.argrelmax(avg, order=window_size)[0]
        cands = filter_peak_height(avg, cands, thresh * np.max(avg), window=window_size)
        rings.append(bin_edges_to_centers(bins)[ok][cands[:max_peaks]])
    n = np.min([len(x) for x in rings])
    rings = np.vstack([x[:n] for x in rings]).T
    dr = np.mean(rings - np.mean(rings, axis=1, keepdims=True), axis=0)
    p = bin_edges_to_centers(edges)
    delta = np.mean(np.diff(p))
    col = np.sum(np.sin(p) * dr) * delta / (np.pi * pixel_size[1])
    row = np.sum(np.cos(p) * dr) * delta / (np.pi * pixel_size[0])
    return tuple(np.array(calibrated_center) + np.array([row, col]))
