"""C06: statistics over ROI labels."""
import numpy as np
from scipy import ndimage
from spec_c05 import radii


@spec("skbeam.core.roi:roi_max_counts")
def roi_max_counts(images_sets, label_array):
    m = 0
    for s in images_sets:
        for img in s:
            m = max(m, ndimage.maximum(img, label_array))
    return m


@spec("skbeam.core.roi:roi_pixel_values")
def roi_pixel_values(image, labels, index=None):
    if labels.shape != image.shape:
        raise ValueError
    if index is None:
        index = np.arange(1, np.max(labels) + 1)
    return [image[labels == n] for n in index], index


@spec("skbeam.core.roi:mean_intensity")
def mean_intensity(images, labeled_array, index=None):
    if labeled_array.shape != images[0].shape[0:]:
        raise ValueError
    if index is None:
        index = list(np.unique(labeled_array))
        if 0 in index:
            index.remove(0)
    try:
        len(index)
    except TypeError:
        index = [index]
    out = np.zeros((images.shape[0], len(index)))
    for n, img in enumerate(images):
        out[n] = ndimage.mean(img, labeled_array, index=index)
    return out, index


@spec("skbeam.core.roi:circular_average")
def circular_average(image, calibrated_center, threshold=0, nx=100, pixel_size=(1, 1), min_x=None, max_x=None, mask=None):
    if pixel_size is None:
        pixel_size = (1, 1)
    X, Y = np.meshgrid(pixel_size[1] * (np.arange(image.shape[1]) - calibrated_center[1]),
                       pixel_size[0] * (np.arange(image.shape[0]) - calibrated_center[0]))
    r = np.sqrt(X**2 + Y**2)
    if mask is not None:
        w = np.where(mask == 1)
        r = r[w]
        image = image[w]
    r = np.ravel(r)
    lo = np.min(r) if min_x is None else min_x
    hi = np.max(r) if max_x is None else max_x
    n = int(hi - lo) if nx is None else nx
    edges = np.linspace(lo, hi, n + 1)
    sums = np.histogram(r, bins=edges, weights=np.ravel(image))[0]
    counts = np.histogram(r, bins=edges)[0]
    keep = counts > threshold
    return ((edges[1:] + edges[:-1]) / 2)[keep], sums[keep] / counts[keep]


@spec("skbeam.core.roi:kymograph")
def kymograph(images, labels, num):
    rows = []
    for img in images:
        rows.append(roi_pixel_values(img, labels == num)[0])
    return np.vstack(rows)


@spec("skbeam.core.roi:extract_label_indices")
def extract_label_indices(labels):
    n = labels.shape
    grid = np.indices((n[0], n[1]))
    flat = np.ravel(grid[0] * n[1] + grid[1])
    return labels[labels > 0], flat[np.where(np.ravel(labels) > 0)]
