"""C04: two-time correlation."""
from collections import namedtuple

import numpy as np
from scipy.signal import fftconvolve
from skbeam.core import correlation
from spec_c03 import inputs

results = namedtuple("correlation_results", ["g2", "lag_steps", "internal_state"])
_state = namedtuple("two_time_correlation_state", ["buf", "img_per_level", "label_array", "track_level", "cur",
                                                   "pixel_list", "num_pixels", "lag_steps", "g2", "count_level",
                                                   "current_img_time", "time_ind", "norm", "lev_len"])


def process(buf, g2, label_array, num_bufs, num_pixels, img_per_level, lag_steps, now, level, buf_no):
    img_per_level[level] += 1
    i_min = 0 if level == 0 else num_bufs // 2
    for i in range(i_min, min(img_per_level[level], num_bufs)):
        t = level * num_bufs // 2 + i
        past = buf[level, (buf_no - i) % num_bufs]
        future = buf[level, buf_no]
        both = np.bincount(label_array, weights=past * future)[1:]
        p = np.bincount(label_array, weights=past)[1:]
        f = np.bincount(label_array, weights=future)[1:]
        value = both / (p * f) * num_pixels
        row = now - 1
        col = now - lag_steps[t] - 1
        if isinstance(now, int):
            g2[:, int(row), int(col)] = value
        else:
            n = 2 ** (level - 1)
            for k in range(-n + 1, n + 1):
                g2[:, int(row + k), int(col + k)] = value


@spec("skbeam.core.correlation:lazy_two_time", doms={"num_levels": "posint", "num_bufs": "int", "num_frames": "posint"})
def lazy_two_time(labels, images, num_frames, num_bufs, num_levels=1, two_time_internal_state=None):
    if two_time_internal_state is None:
        (label_array, pixel_list, num_rois, num_pixels, lag_steps, buf, img_per_level, track_level, cur, norm,
         lev_len) = inputs(num_bufs, num_levels, labels)
        count_level = np.zeros(num_levels, dtype=np.int64)
        time_ind = {key: [] for key in range(num_levels)}
        g2 = np.zeros((num_rois, num_frames, num_frames), dtype=np.float64)
        two_time_internal_state = _state(buf, img_per_level, label_array, track_level, cur, pixel_list, num_pixels,
                                         lag_steps, g2, count_level, 0, time_ind, norm, lev_len)
    s = two_time_internal_state
    for img in images:
        s.cur[0] = (1 + s.cur[0]) % num_bufs
        s.count_level[0] = 1 + s.count_level[0]
        s = s._replace(current_img_time=(s.current_img_time + 1))
        s.buf[0, s.cur[0] - 1] = np.ravel(img)[s.pixel_list]
        process(s.buf, s.g2, s.label_array, num_bufs, s.num_pixels, s.img_per_level, s.lag_steps, s.current_img_time,
                0, s.cur[0] - 1)
        s.time_ind[0].append(s.current_img_time)
        go = num_levels > 1
        level = 1
        while go:
            if not s.track_level[level]:
                s.track_level[level] = 1
                go = False
            else:
                prev = 1 + (s.cur[level - 1] - 2) % num_bufs
                s.cur[level] = 1 + s.cur[level] % num_bufs
                s.count_level[level] = 1 + s.count_level[level]
                s.buf[level, s.cur[level] - 1] = (
                    s.buf[level - 1, prev - 1] + s.buf[level - 1, s.cur[level - 1] - 1]) / 2
                k = (s.count_level[level] - 1) * 2
                now = (s.time_ind[level - 1][k] + s.time_ind[level - 1][k + 1]) / 2.0
                s.time_ind[level].append(now)
                s.track_level[level] = 0
                process(s.buf, s.g2, s.label_array, num_bufs, s.num_pixels, s.img_per_level, s.lag_steps, now,
                        level, s.cur[level] - 1)
                level += 1
                go = level < num_levels
        yield s


@spec("skbeam.core.correlation:two_time_state_to_results")
def two_time_state_to_results(state):
    for q in range(np.max(state.label_array)):
        x = state.g2[q, :, :]
        state.g2[q, :, :] = np.tril(x) + np.tril(x).T - np.diag(np.diag(x))
    return results(state.g2, state.lag_steps, state)


@spec("skbeam.core.correlation:two_time_corr",
      opaque=["skbeam.core.correlation:lazy_two_time", "skbeam.core.correlation:two_time_state_to_results"])
def two_time_corr(labels, images, num_frames, num_bufs, num_levels=1):
    for last in correlation.lazy_two_time(labels, images, num_frames, num_bufs, num_levels):
        pass
    return correlation.two_time_state_to_results(last)


@spec("skbeam.core.correlation:one_time_from_two_time")
def one_time_from_two_time(two_time_corr, calc_errors=False):
    g = np.zeros((two_time_corr.shape[0], two_time_corr.shape[2]))
    e = np.zeros((two_time_corr.shape[0], two_time_corr.shape[2]))
    for i, m in enumerate(two_time_corr):
        for j in range(m.shape[1]):
            d = np.diag(m, k=j)
            g[i, j] = np.nanmean(d)
            if calc_errors:
                e[i, j] = np.nanstd(d) / np.sqrt(len(d))
    if calc_errors:
        return g, e
    return g
