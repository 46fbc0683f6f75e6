"""C05: ROI label arrays."""
import collections

import numpy as np
from skimage.draw import line
from skimage import color, draw, feature, img_as_float
from skimage.measure import CircleModel, ransac


def radii(center, shape):
    X, Y = np.meshgrid(np.arange(shape[1]) - center[1], np.arange(shape[0]) - center[0])
    return np.sqrt(X**2 + Y**2)


def angles(center, shape):
    X, Y = np.meshgrid(np.arange(shape[1]) - center[1], np.arange(shape[0]) - center[0])
    return np.arctan2(Y, X)


def check_edges(edges):
    if len(edges) % 2 != 0:
        raise ValueError
    if not np.all(np.diff(edges) >= 0):
        raise ValueError


def intervals(coords, edges, shape):
    k = np.digitize(coords, edges, right=False)
    return ((np.where(k % 2 != 0, k, 0) + 1) // 2).reshape(shape)


@spec("skbeam.core.roi:rectangles")
def rectangles(coords, shape):
    grid = np.zeros(shape, dtype=np.int64)
    for i, (c, r, w, h) in enumerate(coords):
        rows = slice(np.max([c, 0]), np.min([c + w, shape[0]]))
        cols = slice(np.max([r, 0]), np.min([r + h, shape[1]]))
        if np.any(grid[rows, cols]):
            raise ValueError
        grid[rows, cols] = i + 1
    return grid


@spec("skbeam.core.roi:rings")
def rings(edges, center, shape):
    e = np.atleast_2d(np.asarray(edges)).ravel()
    check_edges(e)
    return intervals(radii(center, shape).ravel(), e, shape)


@spec("skbeam.core.roi:ring_edges")
def ring_edges(inner_radius, width, spacing=0, num_rings=None):
    wl = isinstance(width, collections.abc.Iterable)
    sl = isinstance(spacing, collections.abc.Iterable)
    if wl and sl:
        if len(spacing) != len(width) - 1:
            raise ValueError
    if num_rings is None:
        try:
            num_rings = len(width)
        except TypeError:
            try:
                num_rings = len(spacing) + 1
            except TypeError:
                raise ValueError
    else:
        if wl and num_rings != len(width):
            raise ValueError
        if sl and num_rings - 1 != len(spacing):
            raise ValueError
    w = width if wl else np.ones(num_rings) * width
    s = spacing if sl else np.ones(num_rings - 1) * spacing
    steps = np.array([np.insert(s, 0, inner_radius), w]).T.ravel()
    return np.cumsum(steps).reshape(-1, 2)


@spec("skbeam.core.roi:segmented_rings")
def segmented_rings(edges, segments, center, shape, offset_angle=0):
    e = np.asarray(edges).ravel()
    check_edges(e)
    a = angles(center, shape)
    a[a < 0] = 2 * np.pi + a[a < 0]
    if isinstance(segments, collections.abc.Iterable):
        seg = np.asarray(segments) + offset_angle
    else:
        seg = np.linspace(0, 2 * np.pi, num=segments + 1) + offset_angle
    a = seg[0] + np.mod(a - seg[0], 2 * np.pi)
    ind = np.digitize(np.ravel(a), seg, right=False).reshape(shape)
    ind[ind == len(seg)] = 0
    out = np.zeros(shape, dtype=np.int64)
    r = radii(center, shape)
    for i in range(len(e) // 2):
        inside = (e[2 * i] <= r) & (r < e[2 * i + 1]) & (ind > 0)
        out[inside] = ind[inside] + (len(seg) - 1) * i
    return out


@spec("skbeam.core.roi:bar")
def bar(edges, shape, horizontal=True, values=None):
    e = np.atleast_2d(np.asarray(edges)).ravel()
    check_edges(e)
    if values is None:
        if horizontal:
            values = np.repeat(range(shape[0]), shape[1])
        else:
            values = np.tile(range(shape[1]), shape[0])
    return intervals(values, e, shape)


@spec("skbeam.core.roi:box")
def box(shape, v_edges, h_edges=None, h_values=None, v_values=None):
    if h_edges is None:
        h_edges = v_edges
    if h_values is None and v_values is None:
        v_values, h_values = np.mgrid[:shape[0], :shape[1]]
    else:
        if h_values.shape != v_values.shape:
            raise ValueError
    if len(np.atleast_2d(np.asarray(h_edges)).ravel()) % 2 != 0:
        raise ValueError
    if len(np.atleast_2d(np.asarray(v_edges)).ravel()) % 2 != 0:
        raise ValueError
    coords = []
    for h in h_edges:
        for v in v_edges:
            coords.append((h[0], v[0], h[1] - h[0], v[1] - v[0]))
    return rectangles(coords, v_values.shape)


@spec("skbeam.core.roi:lines")
def lines(end_points, shape):
    out = np.zeros(shape, dtype=np.int64)
    n = 0
    for p in end_points:
        if len(p) != 4:
            raise ValueError
        rr, cc = line(np.max([p[0], 0]), np.max([p[1], 0]), np.min([p[2], shape[0] - 1]), np.min([p[3], shape[1] - 1]))
        n += 1
        out[rr, cc] = n
    return out


@spec("skbeam.core.roi:auto_find_center_rings")
def auto_find_center_rings(avg_img, sigma=1, no_rings=4, min_samples=3, residual_threshold=1, max_trials=1000):
    gray = color.rgb2gray(avg_img) if avg_img.ndim == 3 else avg_img
    image = img_as_float(gray, force_copy=True)
    pts = np.column_stack(np.nonzero(feature.canny(image, sigma)))[:, ::-1]
    radii = []
    for i in range(no_rings):
        model, inliers = ransac(pts, CircleModel, min_samples, residual_threshold, max_trials=max_trials)
        if i == 0:
            center = (int(model.params[0]), int(model.params[1]))
        radii.append(model.params[2])
        rr, cc = draw.circle_perimeter(center[1], center[0], int(model.params[2]), shape=image.shape)
        image[rr, cc] = i + 1
        pts = pts[~inliers]
    return center, image, radii
