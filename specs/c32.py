"""C32: masked spatial cross correlation, one image per mask id."""
import numpy as np
from scipy.signal import fftconvolve
from skbeam.core.correlation import CrossCorrelator


def cross(a, b):
    if a.shape != b.shape:
        raise ValueError
    return fftconvolve(a, b[tuple([slice(None, None, -1) for i in range(a.ndim)])], mode="full")


def regions(shape, mask):
    if mask is None:
        mask = np.ones(shape)
    if len(shape) == 1:
        mask = mask.reshape((1, shape[0]))
    if len(shape) > 2:
        raise ValueError
    i, j = np.where(mask != 0)
    ids = mask[i, j].astype(np.uint32)
    o = np.argsort(ids)
    ids = ids[o]
    i = i[o]
    j = j[o]
    ptr = np.append(0, 1 + np.where(np.not_equal(ids[1:], ids[:-1]))[0])
    ptr = np.append(ptr, len(ids)).astype(np.uint32)
    n = len(ptr[:-1])
    box = np.zeros((n, 4), dtype=np.uint32)
    for k in range(n):
        box[k] = [i[ptr[k]:ptr[k + 1]].min(), i[ptr[k]:ptr[k + 1]].max(),
                  j[ptr[k]:ptr[k + 1]].min(), j[ptr[k]:ptr[k + 1]].max()]
    si = i.copy()
    sj = j.copy()
    for k in range(n):
        si[ptr[k]:ptr[k + 1]] -= box[k, 0]
        sj[ptr[k]:ptr[k + 1]] -= box[k, 2]
    sizes = np.array(1 + (np.diff(box, axis=-1)[:, [0, 2]]))
    return n, ptr, i, j, si, sj, sizes


def overlap(m):
    c = cross(m, m)
    c = c * (c > 0.5)
    c[np.where(c == 0)] = np.nan
    return c


def submask(sizes, k, si, sj, ptr):
    m = np.zeros(sizes[k, :])
    m[si[ptr[k]:ptr[k + 1]], sj[ptr[k]:ptr[k + 1]]] = 1
    return m


def geometry_driver(shape, mask):
    c = CrossCorrelator(shape, mask=mask)
    return c.positions, c.centers, c.nids, c.shapes, c.submasks, c.maskcorrs, c.pxlst_maskcorrs


@spec(driver="geometry_driver")
def geometry(shape, mask):
    n, ptr, i, j, si, sj, sizes = regions(shape, mask)
    pos = []
    cen = []
    sub = []
    cor = []
    px = []
    for k in range(n):
        m = submask(sizes, k, si, sj, ptr)
        sub.append(m)
        c = overlap(m)
        cor.append(c)
        x = cross(m, m)
        px.append(x * (x > 0.5) > 0)
        center = np.array(c.shape) // 2
        cen.append(center)
        if len(shape) == 1:
            pos.append(np.arange(c.shape[1]) - center[1])
        elif len(shape) == 2:
            pos.append([np.arange(c.shape[0]) - center[0], np.arange(c.shape[1]) - center[1]])
    if n == 1:
        pos = pos[0]
        cen = cen[0]
    return pos, cen, n, sizes, sub, cor, px


def call_driver(shape, mask, default, img1, img2, normalization):
    return CrossCorrelator(shape, mask=mask, normalization=default)(img1, img2, normalization)


@spec(driver="call_driver")
def call(shape, mask, default, img1, img2, normalization):
    if default is None:
        default = ["regular"]
    elif not isinstance(default, list):
        default = [default]
    n, ptr, i, j, si, sj, sizes = regions(shape, mask)
    sub = []
    cor = []
    for k in range(n):
        m = submask(sizes, k, si, sj, ptr)
        sub.append(m)
        cor.append(overlap(m))
    if normalization is None:
        normalization = default
    if img1.shape != shape:
        raise ValueError
    if len(shape) == 1:
        img1 = img1.reshape((1, shape[0]))
    auto = img2 is None
    if not auto:
        if img2.shape != shape:
            raise ValueError
        if len(shape) == 1:
            img2 = img2.reshape((1, shape[0]))
    out = []
    for k in range(n):
        si_, sj_ = si[ptr[k]:ptr[k + 1]], sj[ptr[k]:ptr[k + 1]]
        i_, j_ = i[ptr[k]:ptr[k + 1]], j[ptr[k]:ptr[k + 1]]
        a = np.zeros(sizes[k, :])
        a[si_, sj_] = img1[i_, j_]
        if auto:
            b = a
        else:
            b = np.zeros_like(a)
            b[si_, sj_] = img2[i_, j_]
        c = cross(a, b)
        if "symavg" in normalization:
            c = c * (cor[k] / cross(a * sub[k], sub[k]) / cross(sub[k], b * sub[k]))
        if "regular" in normalization:
            if auto:
                c = c / (cor[k] * np.average(a[si_, sj_]) ** 2)
            else:
                c = c / (cor[k] * np.average(a[si_, sj_]) * np.average(b[si_, sj_]))
        if len(shape) == 1:
            c = c.reshape(-1)
        out.append(c)
    if len(out) == 1:
        out = out[0]
    return out
