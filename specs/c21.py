"""Differential phase contrast."""
import warnings
from collections import namedtuple

import numpy as np
from scipy.optimize import minimize

dpc_internal_state = namedtuple("dpc_internal_state", ["ax", "ay", "gx", "gy", "ref_fx", "ref_fy", "index"])


@spec("skbeam.core.dpc:image_reduction")
def image_reduction(im, roi=None, bad_pixels=None):
    if bad_pixels:
        im = im.copy()
        for row, column in bad_pixels:
            im[row, column] = 0
    if roi:
        r, c, row, col = roi
        im = im[r:r + row, c:c + col]
    return np.sum(im, axis=0), np.sum(im, axis=1)


def residual(length):
    beta = 1j * np.linspace(-(length - 1) // 2, (length - 1) // 2, length)

    def rss(v, ref_reduction, diff_reduction):
        d = diff_reduction - ref_reduction * v[0] * np.exp(v[1] * beta)
        return np.sum((d * np.conj(d)).real)

    return rss


@spec("skbeam.core.dpc:dpc_fit")
def dpc_fit(rss, ref_reduction, diff_reduction, start_point, solver="Nelder-Mead", tol=1e-6, max_iters=2000):
    return minimize(rss, start_point, args=(ref_reduction, diff_reduction), method=solver, tol=tol,
                    options=dict(maxiter=max_iters)).x


@spec("skbeam.core.dpc:recon")
def recon(gx, gy, scan_xstep, scan_ystep, padding=0, weighting=0.5):
    if weighting < 0 or weighting > 1:
        raise ValueError
    gx = np.asarray(gx)
    rows, cols = gx.shape
    pr = rows * (2 * padding + 1)
    pc = cols * (2 * padding + 1)
    px = np.zeros((pr, pc), dtype="d")
    py = np.zeros((pr, pc), dtype="d")
    px[padding * rows:(padding + 1) * rows, padding * cols:(padding + 1) * cols] = gx
    py[padding * rows:(padding + 1) * rows, padding * cols:(padding + 1) * cols] = gy
    tx = np.fft.fftshift(np.fft.fft2(px))
    ty = np.fft.fftshift(np.fft.fft2(py))
    kx, ky = np.meshgrid(2 * np.pi * np.arange(-(pc // 2), pc - pc // 2) / (pc * scan_xstep),
                         2 * np.pi * np.arange(-(pr // 2), pr - pr // 2) / (pr * scan_ystep))
    div = kx ** 2 * (1 - weighting) + ky ** 2 * weighting
    c = -1j * (kx * tx * (1 - weighting) + ky * ty * weighting) / div
    c = np.fft.ifftshift(np.where(div == 0, 0, c))
    return np.fft.ifft2(c)[padding * rows:(padding + 1) * rows, padding * cols:(padding + 1) * cols].real


@spec("skbeam.core.dpc:lazy_dpc")
def lazy_dpc(ref, image_sequence, start_point, scan_rows, scan_cols, solver="Nelder-Mead", roi=None, bad_pixels=None,
             dpc_state=None):
    if dpc_state is None:
        rx, ry = image_reduction(ref, roi, bad_pixels)
        dpc_state = dpc_internal_state(
            np.zeros((scan_rows, scan_cols), dtype="d"), np.zeros((scan_rows, scan_cols), dtype="d"),
            np.zeros((scan_rows, scan_cols), dtype="d"), np.zeros((scan_rows, scan_cols), dtype="d"),
            np.fft.fftshift(np.fft.ifft(rx)), np.fft.fftshift(np.fft.ifft(ry)), [0])
    ffx = residual(len(dpc_state.ref_fx))
    ffy = residual(len(dpc_state.ref_fy))
    for im in image_sequence:
        i, j = np.unravel_index(dpc_state.index[0], (scan_rows, scan_cols))
        x, y = image_reduction(im, roi, bad_pixels)
        ax, gx = dpc_fit(ffx, dpc_state.ref_fx, np.fft.fftshift(np.fft.ifft(x)), start_point, solver)
        ay, gy = dpc_fit(ffy, dpc_state.ref_fy, np.fft.fftshift(np.fft.ifft(y)), start_point, solver)
        dpc_state.gx[i, j] = gx
        dpc_state.gy[i, j] = gy
        dpc_state.ax[i, j] = ax
        dpc_state.ay[i, j] = ay
        dpc_state.index[0] += 1
        yield dpc_state


@spec("skbeam.core.dpc:reconstruct_phase_from_partial_info")
def reconstruct_phase_from_partial_info(dpc_state, energy, scan_xstep, scan_ystep, pixel_size=None, focus_to_det=None,
                                        negate=True, scale=True, padding=0, weighting=0.5):
    if weighting < 0 or weighting > 1:
        raise ValueError
    gx = dpc_state.gx
    gy = dpc_state.gy
    if scale and pixel_size and focus_to_det:
        f = pixel_size * energy / (0.00124 * focus_to_det)
        gx = gx * len(dpc_state.ref_fx) * f
        gy = gy * len(dpc_state.ref_fy) * f
    if negate:
        gx = -gx
    return recon(gx, gy, scan_xstep, scan_ystep, padding, weighting), (dpc_state.ax + dpc_state.ay) / 2


@spec("skbeam.core.dpc:dpc_runner")
def dpc_runner(ref, image_sequence, start_point, pixel_size, focus_to_det, scan_rows, scan_cols, scan_xstep, scan_ystep,
               energy, padding=0, weighting=0.5, solver="Nelder-Mead", roi=None, bad_pixels=None, negate=True, scale=True):
    if len(pixel_size) == 2 and pixel_size[0] != pixel_size[1]:
        raise ValueError
    for state in lazy_dpc(ref, image_sequence, start_point, scan_rows, scan_cols, solver, roi, bad_pixels):
        pass
    return reconstruct_phase_from_partial_info(state, energy, scan_xstep, scan_ystep, pixel_size[0], focus_to_det, negate,
                                               scale, padding, weighting)
