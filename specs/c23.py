"""Masks."""
import numpy as np
import scipy.stats as sts


@spec("skbeam.core.mask:bad_to_nan_gen")
def bad_to_nan_gen(images, bad):
    nans = None
    for n, im in enumerate(images):
        if n in bad:
            if nans is None:
                nans = np.empty(im.shape)
                nans[:] = np.nan
            yield nans
        else:
            yield im


@spec("skbeam.core.mask:threshold")
def threshold(images, threshold, mask=None):
    if mask is None:
        mask = np.ones_like(images[0])
    for im in images:
        mask = np.array(mask)
        hot = np.where(im >= threshold)
        if len(hot[0]) != 0:
            mask[hot] = 0
        yield mask


@spec("skbeam.core.mask:margin")
def margin(img_shape, edge_size):
    m = np.ones(img_shape, dtype=bool)
    m[edge_size:img_shape[0] - edge_size, edge_size:img_shape[1] - edge_size] = 0
    return ~m


@spec("skbeam.core.mask:binned_outlier")
def binned_outlier(img, r, alpha, bins, mask=None):
    if mask is None:
        m = np.ones(img.shape).astype(bool)
    else:
        m = np.copy(mask).astype(bool)
    if m.shape != img.shape:
        m = m.reshape(img.shape)
    mean = sts.binned_statistic(r[m], img[m], bins=bins, statistic="mean")[0]
    std = sts.binned_statistic(r[m], img[m], bins=bins, statistic=np.std)[0]
    if type(alpha) is tuple:
        alpha = np.linspace(alpha[0], alpha[1], len(std))
    k = np.digitize(r, bins[:-1], True) - 1
    m *= img > (mean - alpha * std)[k]
    m *= img < (mean + alpha * std)[k]
    return m.astype(bool)
