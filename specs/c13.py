"""C13: unit conversions, coordinate grids and bin edges."""
import numpy as np
import scipy.stats as sts


@spec("skbeam.core.utils:q_to_d")
def q_to_d(q):
    return (2 * np.pi) / np.asarray(q)


@spec("skbeam.core.utils:d_to_q")
def d_to_q(d):
    return (2 * np.pi) / np.asarray(d)


@spec("skbeam.core.utils:q_to_twotheta")
def q_to_twotheta(q, wavelength):
    return 2 * np.arcsin(np.asarray(q) * float(wavelength) / (4 * np.pi))


@spec("skbeam.core.utils:twotheta_to_q")
def twotheta_to_q(two_theta, wavelength):
    return 4 * np.pi / float(wavelength) * np.sin(np.asarray(two_theta) / 2)


@spec("skbeam.core.utils:radius_to_twotheta")
def radius_to_twotheta(dist_sample, radius):
    return np.arctan(radius / dist_sample)


@spec("skbeam.core.utils:radial_grid")
def radial_grid(center, shape, pixel_size=None):
    if pixel_size is None:
        pixel_size = (1, 1)
    X, Y = np.meshgrid(pixel_size[1] * (np.arange(shape[1]) - center[1]),
                       pixel_size[0] * (np.arange(shape[0]) - center[0]))
    return np.sqrt(X**2 + Y**2)


@spec("skbeam.core.utils:angle_grid")
def angle_grid(center, shape, pixel_size=None):
    if pixel_size is None:
        pixel_size = (1, 1)
    x, y = np.meshgrid(pixel_size[1] * (np.arange(shape[1]) - center[1]),
                       pixel_size[0] * (np.arange(shape[0]) - center[0]))
    return np.arctan2(y, x)


@spec("skbeam.core.utils:img_to_relative_xyi", observe=("raise",))
def img_to_relative_xyi(img, cx, cy, pixel_size_x=None, pixel_size_y=None):
    if (pixel_size_x is None) != (pixel_size_y is None):
        raise ValueError
    if pixel_size_x is None:
        px, py = 1, 1
    else:
        if pixel_size_x <= 0 or pixel_size_y <= 0:
            raise ValueError
        px, py = pixel_size_x, pixel_size_y
    x, y = np.meshgrid(px * (np.arange(img.shape[0]) - cx), py * (np.arange(img.shape[1]) - cy))
    return x.ravel(), y.ravel(), img.ravel()


@spec("skbeam.core.utils:bin_edges")
def bin_edges(range_min=None, range_max=None, nbins=None, step=None):
    n = sum((range_min is not None, range_max is not None, step is not None, nbins is not None))
    if n != 3:
        raise ValueError()
    if range_min is not None and range_max is not None and range_min >= range_max:
        raise ValueError()
    if nbins is not None and nbins <= 0:
        raise ValueError()
    if step is None:
        return np.linspace(range_min, range_max, nbins + 1)
    if nbins is None:
        if step > range_max - range_min:
            raise ValueError
        nbins = int((range_max - range_min) // step)
        ret = range_min + step * np.arange(nbins + 1)
        if ret[-1] > range_max:
            return ret[:-1]
        return ret
    if range_max is None:
        return range_min + np.arange(nbins + 1) * step
    return range_max - np.arange(nbins + 1)[::-1] * step


@spec("skbeam.core.utils:bin_edges_to_centers")
def bin_edges_to_centers(input_edges):
    e = np.asarray(input_edges)
    return (e[:-1] + e[1:]) / 2


@spec("skbeam.core.utils:geometric_series")
def geometric_series(common_ratio, number_of_images, first_term=1):
    s = [first_term]
    while s[-1] * common_ratio < number_of_images:
        s.append(s[-1] * common_ratio)
    return s


@spec("skbeam.core.utils:subtract_reference_images")
def subtract_reference_images(imgs, is_reference):
    if not is_reference[0]:
        raise ValueError
    ref = imgs[0]
    out = []
    for im, r in zip(imgs[1:], is_reference[1:]):
        if r:
            ref = im
        else:
            out.append(im - ref)
    return out
