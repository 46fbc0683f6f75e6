"""Coherent diffraction imaging."""
import numpy as np
from skbeam.core.cdi import cdi_recon as cdi_recon_
from scipy.ndimage import gaussian_filter


def dist(dims):
    total = np.zeros(dims, dtype=np.float64)
    for k, d in enumerate(dims):
        shape = np.ones(len(dims), dtype=np.int64)
        shape[k] = d
        total += np.broadcast_to(np.reshape((np.arange(d) - d // 2) ** 2, shape=shape), dims)
    return np.sqrt(total)


@spec("skbeam.core.cdi:gauss")
def gauss(dims, sigma):
    y = np.exp(-dist(dims) ** 2 / sigma ** 2 / 2)
    return y / np.sum(y)


@spec("skbeam.core.cdi:pi_modulus")
def pi_modulus(recon_pattern, diffracted_pattern, offset_v=1e-12):
    f = np.fft.fftn(recon_pattern) / np.sqrt(np.size(recon_pattern))
    m = diffracted_pattern > 0
    f[m] = diffracted_pattern[m] * f[m] / (np.abs(f[m]) + offset_v)
    return np.fft.ifftn(f) * np.sqrt(np.size(diffracted_pattern))


@spec("skbeam.core.cdi:find_support")
def find_support(sample_obj, sw_sigma, sw_threshold):
    g = gaussian_filter(np.abs(sample_obj), sw_sigma)
    return g >= sw_threshold * np.max(g)


@spec("skbeam.core.cdi:cal_diff_error")
def cal_diff_error(sample_obj, diffracted_pattern):
    f = np.abs(np.fft.fftn(sample_obj)) / np.sqrt(np.size(sample_obj))
    return np.linalg.norm(f - diffracted_pattern) / np.linalg.norm(diffracted_pattern)


@spec("skbeam.core.cdi:generate_random_phase_field")
def generate_random_phase_field(diffracted_pattern):
    phase = np.random.uniform(0, 2 * np.pi, diffracted_pattern.shape)
    return np.fft.ifftn(diffracted_pattern * np.exp(1j * phase)) * np.sqrt(np.size(diffracted_pattern))


@spec("skbeam.core.cdi:generate_box_support")
def generate_box_support(sup_radius, shape_v):
    sup = np.zeros(shape_v)
    sup[tuple([slice(s // 2 - sup_radius, s // 2 + sup_radius) for s in shape_v])] = 1
    return sup


@spec("skbeam.core.cdi:generate_disk_support")
def generate_disk_support(sup_radius, shape_v):
    sup = np.zeros(shape_v)
    sup[dist(shape_v) < sup_radius] = 1
    return sup


@spec("skbeam.core.cdi:cdi_recon", doms={"n_iterations": "posint", "sw_step": "posint", "cb_step": "posint"})
def cdi_recon(diffracted_pattern, sample_obj, sup, beta=1.15, start_avg=0.8, pi_modulus_flag="Complex", sw_flag=True,
              sw_sigma=0.5, sw_threshold=0.1, sw_start=0.2, sw_end=0.8, sw_step=10, n_iterations=1000, cb_function=None,
              cb_step=10):
    pattern = np.fft.fftshift(np.array(diffracted_pattern))
    flag = pi_modulus_flag.lower()
    if flag != "real" and flag != "complex":
        raise ValueError
    real = flag == "real"
    outside = sup != 1
    obj_error = np.zeros(n_iterations)
    diff_error = np.zeros(n_iterations)
    sup_error = np.zeros(n_iterations)
    sup_old = np.zeros_like(pattern)
    avg = np.zeros_like(pattern).astype(complex)
    count = 0
    obj = sample_obj
    for n in range(n_iterations):
        old = np.array(obj)
        a = pi_modulus(obj, pattern)
        if real:
            a = np.abs(a)
        a = (1 + 1 / beta) * a - obj / beta
        a[outside] = 0
        b = np.array(obj)
        b[outside] = 0
        b = pi_modulus((1 - 1 / beta) * b + obj / beta, pattern)
        if real:
            b = np.abs(b)
        obj = obj + beta * (a - b)
        obj_error[n] = np.linalg.norm(obj - old) / np.linalg.norm(old)
        diff_error[n] = cal_diff_error(obj, pattern)
        if sw_flag:
            if n >= sw_start * n_iterations and n <= sw_end * n_iterations:
                if n % sw_step == 0:
                    s = np.zeros_like(pattern)
                    s[find_support(obj, sw_sigma, sw_threshold)] = 1
                    outside = s != 1
                    sup_error[n] = np.sum(sup_old)
                    sup_old = np.array(s)
        if cb_function and (n + 1) % cb_step == 0:
            cb_function(obj, obj_error, diff_error, sup_error)
        if n > start_avg * n_iterations:
            avg += obj
            count += 1
    return avg / count, {"obj_error": obj_error, "diff_error": diff_error, "sup_error": sup_error}


def watch_driver(diffracted_pattern, sample_obj, sup, n_iterations, cb_step):
    seen = []
    cdi_recon_(diffracted_pattern, sample_obj, sup, n_iterations=n_iterations, cb_function=lambda o, a, b, c: seen.append((o, a[0], b[0], c[0])), cb_step=cb_step, sw_flag=False)
    return seen


@spec(driver="watch_driver", doms={"n_iterations": "posint", "cb_step": "posint"})
def watch(diffracted_pattern, sample_obj, sup, n_iterations, cb_step):
    seen = []
    cdi_recon(diffracted_pattern, sample_obj, sup, n_iterations=n_iterations, cb_function=lambda o, a, b, c: seen.append((o, a[0], b[0], c[0])), cb_step=cb_step, sw_flag=False)
    return seen


def shrink_driver(diffracted_pattern, sample_obj, sup, n_iterations):
    return cdi_recon_(diffracted_pattern, sample_obj, sup, n_iterations=n_iterations, sw_start=0, sw_end=1, sw_step=1)


@spec(driver="shrink_driver", doms={"n_iterations": "posint"})
def shrink(diffracted_pattern, sample_obj, sup, n_iterations):
    return cdi_recon(diffracted_pattern, sample_obj, sup, n_iterations=n_iterations, sw_start=0, sw_end=1, sw_step=1)
