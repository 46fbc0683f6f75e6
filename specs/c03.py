"""C03: one-time multi-tau correlation."""
from collections import namedtuple

import numpy as np
from skbeam.core import correlation

results = namedtuple("correlation_results", ["g2", "lag_steps", "internal_state"])
_state = namedtuple("correlation_state", ["buf", "G", "past_intensity", "future_intensity", "img_per_level", "label_array",
                                          "track_level", "cur", "pixel_list", "num_pixels", "lag_steps", "norm", "lev_len"])


@spec("skbeam.core.utils:multi_tau_lags", doms={"multitau_levels": "posint", "multitau_channels": "int"})
def multi_tau_lags(multitau_levels, multitau_channels):
    if multitau_channels % 2 != 0:
        raise ValueError
    half = multitau_channels // 2
    steps = np.arange(0, multitau_channels)
    per_level = {1: steps}
    later = []
    for i in range(2, multitau_levels + 1):
        here = []
        for j in range(0, half):
            v = (half + j) * 2 ** (i - 1)
            later.append(v)
            here.append(v)
        per_level[i] = here
    return (multitau_levels + 1) * multitau_channels // 2, np.append(steps, np.array(later)), per_level


def inputs(num_bufs, num_levels, labels):
    if num_bufs % 2 != 0:
        raise ValueError
    img_dim = labels.shape
    w = np.where(np.ravel(labels) > 0)
    grid = np.indices((img_dim[0], img_dim[1]))
    pixel_list = np.ravel(grid[0] * img_dim[1] + grid[1])[w]
    label_array = labels[labels > 0]
    mapping = {label: n + 1 for n, label in enumerate(np.unique(label_array))}
    for label, n in mapping.items():
        label_array[label_array == label] = n
    num_pixels = np.bincount(label_array)[1:]
    _, lag_steps, per_level = multi_tau_lags(num_levels, num_bufs)
    norm = {key: [0] * len(per_level[key]) for key in per_level.keys()}
    lev_len = np.array([len(per_level[i]) for i in per_level.keys()])
    buf = np.zeros((num_levels, num_bufs, len(pixel_list)), dtype=np.float64)
    img_per_level = np.zeros(num_levels, dtype=np.int64)
    track_level = np.zeros(num_levels, dtype=bool)
    cur = np.ones(num_levels, dtype=np.int64)
    return (label_array, pixel_list, len(mapping), num_pixels, lag_steps, buf, img_per_level, track_level, cur, norm,
            lev_len)


def process(buf, G, past_n, future_n, label_array, num_bufs, num_pixels, img_per_level, level, buf_no, norm, lev_len):
    img_per_level[level] += 1
    i_min = num_bufs // 2 if level else 0
    for i in range(i_min, min(img_per_level[level], num_bufs)):
        t = level * num_bufs // 2 + i
        past = buf[level, (buf_no - i) % num_bufs]
        future = buf[level, buf_no]
        ind = int(t - lev_len[:level].sum())
        n = img_per_level[level] - i - norm[level + 1][ind]
        if np.isnan(past).any() or np.isnan(future).any():
            norm[level + 1][ind] += 1
        else:
            for w, arr in zip([past * future, past, future], [G, past_n, future_n]):
                mean = np.bincount(label_array, weights=w)[1:] / num_pixels
                arr[t] += (mean - arr[t]) / n


@spec("skbeam.core.correlation:lazy_one_time", doms={"num_levels": "posint", "num_bufs": "int"})
def lazy_one_time(image_iterable, num_levels, num_bufs, labels, internal_state=None):
    if internal_state is None:
        (label_array, pixel_list, num_rois, num_pixels, lag_steps, buf, img_per_level, track_level, cur, norm,
         lev_len) = inputs(num_bufs, num_levels, labels)
        G = np.zeros(((num_levels + 1) * num_bufs // 2, num_rois), dtype=np.float64)
        internal_state = _state(buf, G, np.zeros_like(G), np.zeros_like(G), img_per_level, label_array, track_level, cur,
                                pixel_list, num_pixels, lag_steps, norm, lev_len)
    s = internal_state
    for image in image_iterable:
        level = 0
        s.cur[0] = (1 + s.cur[0]) % num_bufs
        s.buf[0, s.cur[0] - 1] = np.ravel(image)[s.pixel_list]
        process(s.buf, s.G, s.past_intensity, s.future_intensity, s.label_array, num_bufs, s.num_pixels,
                s.img_per_level, 0, s.cur[0] - 1, s.norm, s.lev_len)
        go = num_levels > 1
        level = 1
        while go:
            if not s.track_level[level]:
                s.track_level[level] = True
                go = False
            else:
                prev = 1 + (s.cur[level - 1] - 2) % num_bufs
                s.cur[level] = 1 + s.cur[level] % num_bufs
                s.buf[level, s.cur[level] - 1] = (
                    s.buf[level - 1, prev - 1] + s.buf[level - 1, s.cur[level - 1] - 1]) / 2
                s.track_level[level] = False
                process(s.buf, s.G, s.past_intensity, s.future_intensity, s.label_array, num_bufs, s.num_pixels,
                        s.img_per_level, level, s.cur[level] - 1, s.norm, s.lev_len)
                level += 1
                go = level < num_levels
        if len(np.where(s.past_intensity == 0)[0]) != 0:
            g_max = np.where(s.past_intensity == 0)[0][0]
        else:
            g_max = s.past_intensity.shape[0]
        yield results(s.G[:g_max] / (s.past_intensity[:g_max] * s.future_intensity[:g_max]), s.lag_steps[:g_max], s)


@spec("skbeam.core.correlation:auto_corr_scat_factor")
def auto_corr_scat_factor(lags, beta, relaxation_rate, baseline=1):
    return baseline + beta * np.exp(-2 * relaxation_rate * lags)


@spec("skbeam.core.correlation:multi_tau_auto_corr", opaque=["skbeam.core.correlation:lazy_one_time"])
def multi_tau_auto_corr(num_levels, num_bufs, labels, images):
    for last in correlation.lazy_one_time(images, num_levels, num_bufs, labels):
        pass
    return last.g2, last.lag_steps
