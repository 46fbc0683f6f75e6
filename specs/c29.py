"""C29: two-dimensional Savitzky-Golay smoothing."""
import numpy as np
from scipy.signal import fftconvolve


@spec("skbeam.core.smoothing:sgolay2d")
def sgolay2d(image, window_size, order, derivative=None):
    if window_size % 2 == 0:
        raise ValueError
    if window_size ** 2 < (order + 1) * (order + 2) / 2.0:
        raise ValueError
    h = window_size // 2
    exps = [(k - n, n) for k in range(order + 1) for n in range(k + 1)]
    ind = np.arange(-h, h + 1, dtype=np.float64)
    dx = np.repeat(ind, window_size)
    dy = np.tile(ind, [window_size, 1]).reshape(window_size ** 2)
    a = np.empty((window_size ** 2, len(exps)))
    for i, e in enumerate(exps):
        a[:, i] = dx ** e[0] * dy ** e[1]
    z = np.zeros((image.shape[0] + 2 * h, image.shape[1] + 2 * h))
    # borders: mirrored about the edge value
    b = image[0, :]
    z[:h, h:-h] = b - np.abs(np.flipud(image[1:h + 1, :]) - b)
    b = image[-1, :]
    z[-h:, h:-h] = b + np.abs(np.flipud(image[-h - 1:-1, :]) - b)
    b = np.tile(image[:, 0].reshape(-1, 1), [1, h])
    z[h:-h, :h] = b - np.abs(np.fliplr(image[:, 1:h + 1]) - b)
    b = np.tile(image[:, -1].reshape(-1, 1), [1, h])
    z[h:-h, -h:] = b + np.abs(np.fliplr(image[:, -h - 1:-1]) - b)
    z[h:-h, h:-h] = image
    # corners
    b = image[0, 0]
    z[:h, :h] = b - np.abs(np.flipud(np.fliplr(image[1:h + 1, 1:h + 1])) - b)
    b = image[-1, -1]
    z[-h:, -h:] = b + np.abs(np.flipud(np.fliplr(image[-h - 1:-1, -h - 1:-1])) - b)
    b = z[h, -h:]
    z[:h, -h:] = b - np.abs(np.flipud(z[h + 1:2 * h + 1, -h:]) - b)
    b = z[-h:, h].reshape(-1, 1)
    z[-h:, :h] = b - np.abs(np.fliplr(z[-h:, h + 1:2 * h + 1]) - b)
    p = np.linalg.pinv(a)
    if derivative is None:
        return fftconvolve(z, p[0].reshape((window_size, -1)), mode="valid")
    col = p[1].reshape((window_size, -1))
    row = p[2].reshape((window_size, -1))
    if derivative == "col":
        return fftconvolve(z, -col, mode="valid")
    elif derivative == "row":
        return fftconvolve(z, -row, mode="valid")
    elif derivative == "both":
        return fftconvolve(z, -row, mode="valid"), fftconvolve(z, -col, mode="valid")
