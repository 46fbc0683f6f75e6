import numpy as np

CSRC = ["src/ctrans.c"]


def drv_q(angles, mode, nx, ny, px, py, cx, cy, dist, wavelength, ubinv):
    from csrc.ctrans import ccdToQ
    return ccdToQ(angles, mode, (nx, ny), (px, py), (cx, cy), dist, wavelength, ubinv)


@spec(driver="drv_q", doms={"mode": [0, 1, 2, 3, 4, 5], "nx": "small", "ny": "small", "dist": "pos", "wavelength": "pos"})
def ccd_to_q(angles, mode, nx, ny, px, py, cx, cy, dist, wavelength, ubinv):
    if nx < 0 or ny < 0:
        raise ValueError
    src = np.asarray(angles, float)
    if src.ndim != 2:
        raise ValueError
    ub = np.asarray(ubinv, float)
    if ub.ndim != 2:
        raise ValueError
    if src.shape[1] != 6:
        raise ValueError
    if ub.shape[0] != 3 or ub.shape[1] != 3:
        raise ValueError
    a = np.ravel(src)
    u = np.ravel(ub)
    images = src.shape[0]
    out = np.empty(images * (nx * ny) * 3, float)
    k = 2 * 3.1415926535897931 / wavelength
    for im in range(images):
        for j in range(ny):
            for i in range(nx):
                d = a[im * 6] - np.arctan((j - cy) * (py / dist))
                g = a[im * 6 + 5] - np.arctan((i - cx) * (px / dist))
                th = a[im * 6 + 1]
                mu = a[im * 6 + 4]
                x = -np.sin(g) * k - np.sin(mu) * k
                y = np.cos(d - th) * np.cos(g) * k - np.cos(th) * np.cos(mu) * k
                z = np.sin(d - th) * np.cos(g) * k + np.sin(th) * np.cos(mu) * k
                if mode > 1:
                    c = a[im * 6 + 2]
                    p = a[im * 6 + 3]
                    x1 = np.cos(c) * x - np.sin(c) * z
                    y1 = np.sin(p) * np.sin(c) * x + np.cos(p) * y + np.sin(p) * np.cos(c) * z
                    z1 = np.cos(p) * np.sin(c) * x - np.sin(p) * y + np.cos(p) * np.cos(c) * z
                    x = x1
                    y = y1
                    z = z1
                if mode == 4:
                    x2 = -u[2] * x + u[1] * y + u[0] * z
                    y2 = -u[5] * x + u[4] * y + u[3] * z
                    z2 = -u[8] * x + u[7] * y + u[6] * z
                    x = x2
                    y = y2
                    z = z2
                at = (im * (nx * ny) + j * nx + i) * 3
                out[at] = x
                out[at + 1] = y
                out[at + 2] = z
    return np.reshape(out, (images * (nx * ny), 3))


def drv_new(num_threads, idle, data, x0, y0, z0, x1, y1, z1, nx, ny, nz, ignore_nan):
    from csrc.ctrans import grid3d
    return grid3d(num_threads, idle, data, (x0, y0, z0), (x1, y1, z1), (nx, ny, nz), ignore_nan)


def drv_add(num_threads, idle, data, x0, y0, z0, x1, y1, z1, nx, ny, nz, ignore_nan, gridout, grid2out, nout):
    from csrc.ctrans import grid3d
    return grid3d(num_threads, idle, data, (x0, y0, z0), (x1, y1, z1), (nx, ny, nz), ignore_nan, gridout, grid2out, nout)


def accumulate(src, start, stop, nx, ny, nz, ignore_nan, total, square, count):
    flat = np.ravel(src)
    keep_nan = ignore_nan is not None and ignore_nan == 1
    for i in range(src.shape[0]):
        v = flat[4 * i + 3]
        x = (flat[4 * i] - start[0]) / (stop[0] - start[0])
        y = (flat[4 * i + 1] - start[1]) / (stop[1] - start[1])
        z = (flat[4 * i + 2] - start[2]) / (stop[2] - start[2])
        if (keep_nan or not np.isnan(v)) and 0 <= x and x < 1 and 0 <= y and y < 1 and 0 <= z and z < 1:
            p = (int(x * nx) * ny + int(y * ny)) * nz + int(z * nz)
            total[p] += v
            square[p] += v * v
            count[p] += 1
    err = np.empty(nx * ny * nz, float)
    for j in range(nx * ny * nz):
        if count[j] == 0:
            err[j] = 0.0
        else:
            var = (square[j] - total[j] ** 2 / count[j]) / count[j]
            err[j] = var ** 0.5 / count[j] ** 0.5
    return err


@spec(driver="drv_new", doms={"x0": [-10, -3, 0], "y0": [-10, 1], "z0": [-10, 0], "x1": [29, 10, 3], "y1": [29, 12, 4], "z1": [29, 6, 2], "nx": [1, 2], "ny": [1, 2], "nz": [1, 2], "num_threads": "small", "idle": [0, 2], "ignore_nan": [None, 0, 1]})
def grid_new(num_threads, idle, data, x0, y0, z0, x1, y1, z1, nx, ny, nz, ignore_nan):
    src = np.asarray(data, float)
    if src.ndim != 2 or src.shape[1] != 4:
        raise ValueError
    if nx == 0 or ny == 0 or nz == 0:
        raise ValueError
    total = np.zeros(nx * ny * nz, float)
    square = np.zeros(nx * ny * nz, float)
    count = np.zeros(nx * ny * nz, np.uint64)
    err = accumulate(src, (x0, y0, z0), (x1, y1, z1), nx, ny, nz, ignore_nan, total, square, count)
    shape = (nx, ny, nz)
    return (np.reshape(total, shape), np.reshape(square, shape), np.reshape(count, shape), np.reshape(err, shape))


@spec(driver="drv_add", doms={"x0": [-10, -3, 0], "y0": [-10, 1], "z0": [-10, 0], "x1": [29, 10, 3], "y1": [29, 12, 4], "z1": [29, 6, 2], "nx": [1, 2], "ny": [1, 2], "nz": [1, 2], "num_threads": "small", "idle": [0, 2], "ignore_nan": [None, 0, 1],
                              "gridout": "array", "grid2out": "array", "nout": "array"})
def grid_add(num_threads, idle, data, x0, y0, z0, x1, y1, z1, nx, ny, nz, ignore_nan, gridout, grid2out, nout):
    assume(gridout is not None and grid2out is not None and nout is not None)
    src = np.asarray(data, float)
    if src.ndim != 2 or src.shape[1] != 4:
        raise ValueError
    if nx == 0 or ny == 0 or nz == 0:
        raise ValueError
    t = np.asarray(gridout, float)
    s = np.asarray(grid2out, float)
    c = np.asarray(nout, np.uint64)
    total = np.ravel(t)
    square = np.ravel(s)
    count = np.ravel(c)
    size = nx * ny * nz
    if len(total) != size or len(square) != size or len(count) != size:
        raise ValueError
    err = accumulate(src, (x0, y0, z0), (x1, y1, z1), nx, ny, nz, ignore_nan, total, square, count)
    return (np.reshape(total, t.shape), np.reshape(square, s.shape), np.reshape(count, c.shape), np.reshape(err, (nx, ny, nz)))
