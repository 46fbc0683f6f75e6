"""X-ray speckle visibility spectroscopy."""
import numpy as np
from scipy import ndimage
from skbeam.core import roi
from skbeam.core.utils import geometric_series


def process(num_roi, level, buf_no, buf, img_per_level, labels, edges, prob, prob2, bad):
    img_per_level[level] += 1
    if np.isnan(buf[level, buf_no]).any():
        bad[level] += 1
        return
    for j, label in enumerate(list(np.unique(labels))):
        hist, edges = np.histogram(buf[level, buf_no][labels == label], bins=edges, density=True)
        hist = np.nan_to_num(hist)
        n = img_per_level[level] - bad[level]
        prob[level, j] += (hist - prob[level, j]) / n
        prob2[level, j] += (np.power(hist, 2) - prob2[level, j]) / n


@spec("skbeam.core.speckle:xsvs", doms={"timebin_num": "posint", "number_of_img": "posint"})
def xsvs(image_sets, label_array, number_of_img, timebin_num=2, max_cts=None):
    if max_cts is None:
        max_cts = 0
        for s in image_sets:
            for img in s:
                max_cts = max(max_cts, ndimage.maximum(img, label_array))
    labels, indices = roi.extract_label_indices(label_array)
    num_roi = len(list(np.unique(labels)))
    num_times = len(geometric_series(timebin_num, number_of_img))
    total = np.zeros([num_times, num_roi], dtype=np.object_)
    total2 = np.zeros_like(total)
    edges = np.zeros(total.shape[0], dtype=total.dtype)
    for i in range(num_times):
        edges[i] = np.arange(max_cts * 2 ** i)
    for i, images in enumerate(image_sets):
        buf = np.zeros([num_times, timebin_num], dtype=np.object_)
        track = np.zeros(num_times)
        bad = np.zeros(num_times)
        cur = np.full(num_times, timebin_num)
        img_per_level = np.zeros(num_times, dtype=np.int64)
        prob = np.zeros_like(total)
        prob2 = np.zeros_like(total)
        for n, img in enumerate(images):
            cur[0] = (1 + cur[0]) % timebin_num
            buf[0, cur[0] - 1] = np.ravel(img)[indices]
            process(num_roi, 0, cur[0] - 1, buf, img_per_level, labels, edges[0], prob, prob2, bad)
            level = 1
            while level < num_times:
                if not track[level]:
                    track[level] = 1
                    break
                else:
                    prev = 1 + (cur[level - 1] - 2) % timebin_num
                    cur[level] = 1 + cur[level] % timebin_num
                    buf[level, cur[level] - 1] = buf[level - 1, prev - 1] + buf[level - 1, cur[level - 1] - 1]
                    track[level] = 0
                    process(num_roi, level, cur[level] - 1, buf, img_per_level, labels, edges[level], prob, prob2, bad)
                    level += 1
        total += (prob - total) / (i + 1)
        total2 += (prob2 - total2) / (i + 1)
    return total, np.power(total2 - np.power(total, 2), 0.5)


@spec("skbeam.core.speckle:normalize_bin_edges")
def normalize_bin_edges(num_times, num_rois, mean_roi, max_cts):
    edges = np.zeros((num_times, num_rois), dtype=object)
    centers = np.zeros_like(edges)
    for i in range(num_times):
        for j in range(num_rois):
            edges[i, j] = np.arange(max_cts * 2 ** i) / (mean_roi[j] * 2 ** i)
            centers[i, j] = (edges[i, j][1:] + edges[i, j][:-1]) / 2
    return edges, centers
