import numpy as np

PYX = ["skbeam/core/accumulators/histogram.pyx"]


def bin_of(x, low, high, size):
    if not (low <= x < high):
        return -1
    return min(int((x - low) / size), int((high - low) / size + 0.5) - 1)


def drv_new(n, low, high):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)))
    return h.values, h.edges[0], h.centers[0], h.ndims


@spec(driver="drv_new", doms={"n": "small", "low": "real", "high": "real"})
def new_1d(n, low, high):
    n, low, high = int(n), float(low), float(high)
    edges = np.linspace(low, high, n + 1)
    return np.zeros([n], float), edges, (edges[1:] + edges[:-1]) * 0.5, 1


def drv_1d(n, low, high, x, w):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)))
    h.fill(np.asarray(x, float), weights=np.asarray(w, float))
    return h.values


@spec(driver="drv_1d", doms={"n": "small"})
def fill_1d(n, low, high, x, w):
    n, low, high = int(n), float(low), float(high)
    xs = np.asarray(x, float)
    ws = np.reshape(np.asarray(np.asarray(w, float)), -1)
    if len(ws) != 1 and len(ws) != len(xs):
        raise ValueError
    out = np.zeros([n], float)
    size = (high - low) / n
    for i in range(len(xs)):
        b = bin_of(xs[i], low, high, size)
        if b != -1:
            if ws.size == 1:
                out[b] += ws[0]
            else:
                out[b] += ws[i]
    return out


def drv_new2(n, low, high, m, low2, high2):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)), (int(m), float(low2), float(high2)))
    return h.values, h.edges, h.centers, h.ndims


@spec(driver="drv_new2", doms={"n": "small", "m": "small"})
def new_2d(n, low, high, m, low2, high2):
    a = np.linspace(float(low), float(high), int(n) + 1)
    b = np.linspace(float(low2), float(high2), int(m) + 1)
    return np.zeros([int(n), int(m)], float), [a, b], [(a[1:] + a[:-1]) * 0.5, (b[1:] + b[:-1]) * 0.5], 2


def drv_2d(n, low, high, m, low2, high2, x, y, w):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)), (int(m), float(low2), float(high2)))
    h.fill(np.asarray(x, float), np.asarray(y, float), weights=np.asarray(w, float))
    return h.values


@spec(driver="drv_2d", doms={"n": "small", "m": "small"})
def fill_2d(n, low, high, m, low2, high2, x, y, w):
    n, low, high = int(n), float(low), float(high)
    m, low2, high2 = int(m), float(low2), float(high2)
    xs = np.asarray(x, float)
    ys = np.asarray(y, float)
    ws = np.reshape(np.asarray(np.asarray(w, float)), -1)
    if len(ys) != len(xs):
        raise ValueError
    if len(ws) != 1 and len(ws) != len(xs):
        raise ValueError
    out = np.zeros([n, m], float)
    size = (high - low) / n
    size2 = (high2 - low2) / m
    for i in range(len(xs)):
        b = bin_of(xs[i], low, high, size)
        c = bin_of(ys[i], low2, high2, size2)
        if b != -1 and c != -1:
            if ws.size == 1:
                out[b][c] += ws[0]
            else:
                out[b][c] += ws[i]
    return out


def drv_nd(n, low, high, m, low2, high2, k, low3, high3, x, y, z, w):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)), (int(m), float(low2), float(high2)), (int(k), float(low3), float(high3)))
    h.fill(np.asarray(x, float), np.asarray(y, float), np.asarray(z, float), weights=np.asarray(w, float))
    return h.values


@spec(driver="drv_nd", doms={"n": "small", "m": "small", "k": "small"})
def fill_3d(n, low, high, m, low2, high2, k, low3, high3, x, y, z, w):
    n, low, high = int(n), float(low), float(high)
    m, low2, high2 = int(m), float(low2), float(high2)
    k, low3, high3 = int(k), float(low3), float(high3)
    xs = np.asarray(x, float)
    ys = np.asarray(y, float)
    zs = np.asarray(z, float)
    ws = np.reshape(np.asarray(np.asarray(w, float)), -1)
    if len(ys) != len(xs) or len(zs) != len(xs):
        raise ValueError
    if len(ws) != 1 and len(ws) != len(xs):
        raise ValueError
    out = np.zeros(n * m * k, float)
    s = (high - low) / n
    s2 = (high2 - low2) / m
    s3 = (high3 - low3) / k
    for i in range(len(xs)):
        a = bin_of(xs[i], low, high, s)
        b = bin_of(ys[i], low2, high2, s2)
        c = bin_of(zs[i], low3, high3, s3)
        if a != -1 and b != -1 and c != -1:
            if ws.size == 1:
                out[(a * m + b) * k + c] += ws[0]
            else:
                out[(a * m + b) * k + c] += ws[i]
    return np.reshape(out, (n, m, k))


def drv_mixed(n, low, high, m, low2, high2, k, low3, high3, x, y, z, w):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)), (int(m), float(low2), float(high2)), (int(k), float(low3), float(high3)))
    h.fill(np.asarray(x, float), np.asarray(y, int), np.asarray(z, float), weights=np.asarray(w, float))
    return h.values


@spec(driver="drv_mixed", doms={"n": "small", "m": "small", "k": "small"})
def fill_3d_mixed(n, low, high, m, low2, high2, k, low3, high3, x, y, z, w):
    n, low, high = int(n), float(low), float(high)
    m, low2, high2 = int(m), float(low2), float(high2)
    k, low3, high3 = int(k), float(low3), float(high3)
    xs = np.asarray(x, float)
    ys = np.asarray(y, int)
    zs = np.asarray(z, float)
    ws = np.reshape(np.asarray(np.asarray(w, float)), -1)
    if len(ys) != len(xs) or len(zs) != len(xs):
        raise ValueError
    if len(ws) != 1 and len(ws) != len(xs):
        raise ValueError
    out = np.zeros(n * m * k, float)
    s = (high - low) / n
    s2 = (high2 - low2) / m
    s3 = (high3 - low3) / k
    for i in range(len(xs)):
        a = bin_of(xs[i], low, high, s)
        b = bin_of(ys[i], low2, high2, s2)
        c = bin_of(zs[i], low3, high3, s3)
        if a != -1 and b != -1 and c != -1:
            if ws.size == 1:
                out[(a * m + b) * k + c] += ws[0]
            else:
                out[(a * m + b) * k + c] += ws[i]
    return np.reshape(out, (n, m, k))


def drv_mixed2(n, low, high, m, low2, high2, k, low3, high3, x, y, z, w):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)), (int(m), float(low2), float(high2)), (int(k), float(low3), float(high3)))
    h.fill(np.asarray(x, int), np.asarray(y, int), np.asarray(z, float), weights=np.asarray(w, float))
    return h.values


@spec(driver="drv_mixed2", doms={"n": "small", "m": "small", "k": "small"})
def fill_3d_two_integers(n, low, high, m, low2, high2, k, low3, high3, x, y, z, w):
    n, low, high = int(n), float(low), float(high)
    m, low2, high2 = int(m), float(low2), float(high2)
    k, low3, high3 = int(k), float(low3), float(high3)
    xs = np.asarray(x, int)
    ys = np.asarray(y, int)
    zs = np.asarray(z, float)
    ws = np.reshape(np.asarray(np.asarray(w, float)), -1)
    if len(ys) != len(xs) or len(zs) != len(xs):
        raise ValueError
    if len(ws) != 1 and len(ws) != len(xs):
        raise ValueError
    out = np.zeros(n * m * k, float)
    s = (high - low) / n
    s2 = (high2 - low2) / m
    s3 = (high3 - low3) / k
    for i in range(len(xs)):
        a = bin_of(xs[i], low, high, s)
        b = bin_of(ys[i], low2, high2, s2)
        c = bin_of(zs[i], low3, high3, s3)
        if a != -1 and b != -1 and c != -1:
            if ws.size == 1:
                out[(a * m + b) * k + c] += ws[0]
            else:
                out[(a * m + b) * k + c] += ws[i]
    return np.reshape(out, (n, m, k))


def drv_unsupported(n, x, y, z):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), 0.0, 1.0), (int(n), 0.0, 2.0), (int(n), 0.0, 3.0))
    h.fill(np.asarray(x, np.float32), np.asarray(y, float), np.asarray(z, int))
    return h.values


@spec(driver="drv_unsupported", observe=("raise",), doms={"n": "small"})
def unsupported_type(n, x, y, z):
    if len(np.asarray(y, float)) != len(np.asarray(x, np.float32)) or len(np.asarray(z, int)) != len(np.asarray(x, np.float32)):
        raise ValueError
    raise TypeError


def drv_unsupported_int32(n, x, y, z):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), 0.0, 1.0), (int(n), 0.0, 2.0), (int(n), 0.0, 3.0))
    h.fill(np.asarray(x, np.int32), np.asarray(y, float), np.asarray(z, int))
    return h.values


@spec(driver="drv_unsupported_int32", observe=("raise",), doms={"n": "small"})
def unsupported_int32(n, x, y, z):
    if len(np.asarray(y, float)) != len(np.asarray(x, np.int32)) or len(np.asarray(z, int)) != len(np.asarray(x, np.int32)):
        raise ValueError
    raise TypeError


def drv_unsupported_uint64(n, x, y, z):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), 0.0, 1.0), (int(n), 0.0, 2.0), (int(n), 0.0, 3.0))
    h.fill(np.asarray(x, np.uint64), np.asarray(y, float), np.asarray(z, int))
    return h.values


@spec(driver="drv_unsupported_uint64", observe=("raise",), doms={"n": "small"})
def unsupported_uint64(n, x, y, z):
    if len(np.asarray(y, float)) != len(np.asarray(x, np.uint64)) or len(np.asarray(z, int)) != len(np.asarray(x, np.uint64)):
        raise ValueError
    raise TypeError


def drv_unsupported_int16(n, x, y, z):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), 0.0, 1.0), (int(n), 0.0, 2.0), (int(n), 0.0, 3.0))
    h.fill(np.asarray(x, np.int16), np.asarray(y, float), np.asarray(z, int))
    return h.values


@spec(driver="drv_unsupported_int16", observe=("raise",), doms={"n": "small"})
def unsupported_int16(n, x, y, z):
    if len(np.asarray(y, float)) != len(np.asarray(x, np.int16)) or len(np.asarray(z, int)) != len(np.asarray(x, np.int16)):
        raise ValueError
    raise TypeError


def drv_lists(n, low, high, x0, x1, w0, w1):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)))
    h.fill([float(x0), float(x1)], weights=[float(w0), float(w1)])
    return h.values


@spec(driver="drv_lists", doms={"n": "small"})
def fill_lists(n, low, high, x0, x1, w0, w1):
    n, low, high = int(n), float(low), float(high)
    out = np.zeros([n], float)
    size = (high - low) / n
    b = bin_of(float(x0), low, high, size)
    if b != -1:
        out[b] += float(w0)
    b = bin_of(float(x1), low, high, size)
    if b != -1:
        out[b] += float(w1)
    return out


def drv_twice(n, low, high, x, y, w):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)))
    h.fill(np.asarray(x, float))
    h.fill(np.asarray(y, float), weights=float(w))
    return h.values


@spec(driver="drv_twice", doms={"n": "small"})
def fills_accumulate(n, low, high, x, y, w):
    n, low, high = int(n), float(low), float(high)
    out = np.zeros([n], float)
    size = (high - low) / n
    xs = np.asarray(x, float)
    ys = np.asarray(y, float)
    for i in range(len(xs)):
        b = bin_of(xs[i], low, high, size)
        if b != -1:
            out[b] += 1
    for i in range(len(ys)):
        b = bin_of(ys[i], low, high, size)
        if b != -1:
            out[b] += float(w)
    return out


def drv_reset(n, low, high, x, y):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)))
    h.fill(np.asarray(x, float))
    h.reset()
    return h.values


@spec(driver="drv_reset", doms={"n": "small"})
def reset_empties(n, low, high, x, y):
    return np.zeros([int(n)], float)


def drv_count(n, x, y):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), 0.0, 1.0))
    h.fill(np.asarray(x, float), np.asarray(y, float))
    return h.values


@spec(driver="drv_count", observe=("raise",), doms={"n": "small"})
def wrong_number_of_coordinates(n, x, y):
    raise ValueError


def drv_eleven(n):
    from skbeam.core.accumulators.histogram import Histogram
    d = (int(n), 0.0, 1.0)
    return Histogram(d, d, d, d, d, d, d, d, d, d, d)


@spec(driver="drv_eleven", observe=("raise",), doms={"n": "small"})
def too_many_dimensions(n):
    raise ValueError


def drv_ten(n):
    from skbeam.core.accumulators.histogram import Histogram
    d = (int(n), 0.0, 1.0)
    return Histogram(d, d, d, d, d, d, d, d, d, d).ndims


@spec(driver="drv_ten", doms={"n": "small"})
def ten_dimensions(n):
    return 10


def drv_few(n, x):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), 0.0, 1.0), (int(n), 0.0, 1.0))
    h.fill(np.asarray(x, float))
    return h.values


@spec(driver="drv_few", observe=("raise",), doms={"n": "small"})
def too_few_coordinates(n, x):
    raise ValueError


def drv_scalars(n, low, high, m, low2, high2, x, y, w):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)), (int(m), float(low2), float(high2)))
    h.fill(float(x), float(y), weights=float(w))
    return h.values


@spec(driver="drv_scalars", doms={"n": "small", "m": "small"})
def fill_scalars(n, low, high, m, low2, high2, x, y, w):
    n, low, high = int(n), float(low), float(high)
    m, low2, high2 = int(m), float(low2), float(high2)
    out = np.zeros([n, m], float)
    b = bin_of(float(x), low, high, (high - low) / n)
    c = bin_of(float(y), low2, high2, (high2 - low2) / m)
    if b != -1 and c != -1:
        out[b][c] += float(w)
    return out


def drv_integers(n, low, high, x):
    from skbeam.core.accumulators.histogram import Histogram
    h = Histogram((int(n), float(low), float(high)))
    h.fill(np.asarray(x, int))
    return h.values


@spec(driver="drv_integers", doms={"n": "small"})
def fill_integers(n, low, high, x):
    n, low, high = int(n), float(low), float(high)
    out = np.zeros([n], float)
    xs = np.asarray(x, int)
    for i in range(len(xs)):
        b = bin_of(xs[i], low, high, (high - low) / n)
        if b != -1:
            out[b] += 1
    return out
