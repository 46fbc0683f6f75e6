SEEDS = []
SEEDS.append(dict(id="one_time_bad_frames", property="C03", file="skbeam/core/correlation.py",
 edits=[("if np.isnan(past_img).any() or np.isnan(future_img).any():", "if np.isnan(past_img * future_img).all():")],
 needs="a frame in which only some of the ROI pixels are NaN",
 breaks="a partly bad frame is not excluded and poisons the running means",
 demo='''
import numpy as np
from skbeam.core.correlation import multi_tau_auto_corr
rng = np.random.RandomState(1)
imgs = rng.poisson(20, (64, 6, 6)).astype(float)
imgs[9, 2, 3] = np.nan
labels = np.ones((6, 6), dtype=int)
nl, nb = 3, 4
g2, lags = multi_tau_auto_corr(nl, nb, labels, imgs)
# direct evaluation: level averages, every pair at the lag, NaN pairs left out
from skbeam.core.utils import multi_tau_lags
_, lag_steps, d = multi_tau_lags(nl, nb)
ser = [imgs.reshape(64, -1)]
for l in range(1, nl):
    p = ser[-1]
    ser.append((p[0:len(p) // 2 * 2:2] + p[1::2]) / 2)
ref = []
for l in range(nl):
    for lag in d[l + 1]:
        k = lag // 2 ** l
        s = ser[l]
        a, b = s[:len(s) - k], s[k:]
        ok = ~(np.isnan(a).any(1) | np.isnan(b).any(1))
        a, b = a[ok], b[ok]
        ref.append((a * b).mean(1).mean() / (a.mean(1).mean() * b.mean(1).mean()))
ref = np.array(ref)[:len(g2)]
assert np.allclose(g2[:, 0], ref, rtol=1e-6), (g2[:, 0], ref)
'''))
SEEDS.append(dict(id="segmented_rings_labels", property="C05", file="skbeam/core/roi.py",
 edits=[("segments = np.asarray(segments) + offset_angle", "segments = np.asarray(segments)")],
 needs="segment boundaries given as an explicit list together with an offset angle",
 breaks="the offset angle is ignored", demo='''
import numpy as np
from skbeam.core.roi import segmented_rings
m = segmented_rings([2, 8], [0, 1.0, 2.0], (10, 10), (21, 21), offset_angle=0.5)
r = segmented_rings([2, 8], [0.5, 1.5, 2.5], (10, 10), (21, 21))
assert (m == r).all()
'''))
SEEDS.append(dict(id="grid3d_bounds_falsy", property="C10", file="skbeam/core/utils.py",
 edits=[("            if in_val is not None:\n                target[j] = in_val", "            if in_val:\n                target[j] = in_val")],
 needs="a bound given explicitly as zero", breaks="an explicit bound of 0 is ignored and replaced by the data extent",
 demo='''
import numpy as np
from skbeam.core.utils import grid3d
q = np.array([[1., 1, 1], [2, 2, 2], [3, 3, 3]])
r = grid3d(q, np.ones((1, 3)), nx=3, ny=3, nz=3, xmin=0, ymin=0, zmin=0, xmax=4, ymax=4, zmax=4)
assert np.allclose(r[3][:, 0] if hasattr(r[3], "shape") else [b[0] for b in r[3]], 0), r[3]
'''))
SEEDS.append(dict(id="radius_pixel_axes", property="C13", file="skbeam/core/utils.py",
 edits=[], needs="", breaks="", demo=""))
SEEDS.pop()
