SEEDS = []
add = lambda **k: SEEDS.append(k)
add(id="outlier_mask_in_place", property="C01", file="skbeam/core/mask.py",
    edits=[("working_mask = np.copy(mask).astype(bool)", "working_mask = np.asarray(mask, dtype=bool)")],
    needs="a mask that already is a boolean array", breaks="the caller's mask loses the outlying pixels",
    demo='''
import numpy as np
from skbeam.core.mask import binned_outlier
rng = np.random.RandomState(0)
img = rng.normal(100, 1, (20, 20)); img[3, 4] = 1e5; img[10, 11] = -1e5
r = np.hypot(*np.mgrid[-10:10, -10:10].astype(float))
bins = np.linspace(0, 15, 4)
mask = np.ones((20, 20), dtype=bool)
keep = mask.copy()
out = binned_outlier(img, r, 3, bins, mask=mask)
assert not out.all()
assert (mask == keep).all(), "caller's mask was changed"
''')
add(id="grid_lower_face", property="C07", file="src/ctrans.c",
    edits=[("(pos_double[1] >= 0) && (pos_double[1] < 1) &&", "(pos_double[1] > 0) && (pos_double[1] < 1) &&")],
    needs="a data point exactly on the lower bound of the second axis", breaks="the point is not counted although it lies inside the grid",
    demo='''
import numpy as np
from skbeam.core.utils import grid3d
q = np.array([[0.5, 0.0, 0.5], [0.5, 0.25, 0.5], [0.0, 0.5, 0.0]])
I = np.array([1.0, 2.0, 4.0])
mean, occ, err, bounds = grid3d(q, I, nx=2, ny=2, nz=2, xmin=0, xmax=1, ymin=0, ymax=1, zmin=0, zmax=1)
assert occ.sum() == 3, occ
''')
add(id="ccd_to_q_reference", property="C08", file="src/ctrans.c",
    edits=[('return Py_BuildValue("N", qOut);', 'return Py_BuildValue("O", qOut);')],
    needs="nothing but repetition: every call leaks its result", breaks="the array handed out is never freed",
    demo='''
import sys, numpy as np
from skbeam.core.recip import process_to_q
q = process_to_q(np.zeros((1, 6)), (4, 5), (0.1, 0.1), (2, 2), 100.0, 1.0, np.eye(3))
base = q if q.base is None else q.base
n = sys.getrefcount(np.zeros(3))
assert sys.getrefcount(base) - 1 <= n + 1, sys.getrefcount(base)
import ctypes
try:
    import skbeam.ctrans as ctrans
except ImportError:
    from skbeam.ext import ctrans
''')
add(id="gridder_columns", property="C09", file="src/ctrans.c",
    edits=[("if(PyArray_DIM(gridI, 1) != 4){", "if(PyArray_DIM(gridI, 1) < 3){")],
    needs="a data array that does not have four columns", breaks="rows of three columns are read with a stride of four: past the end of the buffer",
    demo='''
import numpy as np
from skbeam.ext import ctrans
a = np.zeros((10, 3))
try:
    ctrans.grid3d(a, (0., 0., 0.), (1., 1., 1.), (2, 2, 2))
except ValueError:
    pass
else:
    raise SystemExit("an array with three columns was accepted")
''')
add(id="gsas_mode_line", property="C35", file="skbeam/io/gsas_file_reader.py",
    edits=[("""    with open(file, "r") as fi:
        S = fi.readlines()[1]
        mode = S.split()[9]
""", """    fi = open(file, "r")
    S = fi.readlines()[1]
    mode = S.split()[9]
    fi.close()
""")],
    needs="a file whose second line has fewer than ten words", breaks="the file stays open after the exception",
    demo='''
import os, tempfile, gc
from skbeam.io.gsas_file_reader import gsas_reader
d = tempfile.mkdtemp()
p = os.path.join(d, "x.gsas")
open(p, "w").write("title\\\\nBANK 1 2\\\\n")
kept = []
try:
    gsas_reader(p)
except Exception as e:
    kept.append(e)
held = [os.readlink("/proc/self/fd/" + f) for f in os.listdir("/proc/self/fd") if os.path.islink("/proc/self/fd/" + f)]
os.unlink(p); os.rmdir(d)
assert kept, "no error raised"
assert p not in held, "file left open"
'''.replace("\\\\n", "\\n"))
add(id="xsvs_bad_frames", property="C24", file="skbeam/core/speckle.py",
    edits=[("    if np.isnan(buf[level, buf_no]).any():", "    if np.isnan(buf[level, buf_no]).all():")],
    needs="a frame in which only some of the labelled pixels are NaN", breaks="a partly bad frame is counted in the photon histograms",
    demo='''
import numpy as np
from skbeam.core.speckle import xsvs
rng = np.random.RandomState(1)
imgs = rng.randint(0, 4, (16, 6, 6)).astype(float)
bad = imgs.copy(); bad[5, 1, 1] = np.nan
lab = np.ones((6, 6), int)
p, s = xsvs([bad], lab, 4, timebin_num=2, max_cts=5)
good = [im for k, im in enumerate(imgs) if k != 5]
ref = np.mean([np.histogram(im, bins=np.arange(5), density=True)[0] for im in good], axis=0)
assert np.allclose(np.asarray(p[0, 0], float), ref), (p[0, 0], ref)
''')
add(id="histogram_upper_edge", property="C33", file="skbeam/core/accumulators/histogram.pyx",
    edits=[("            if didx == -1:\n                continue\n            for k in range(afloat_count):", "            if didx < 0 and aint_count > 1:\n                continue\n            for k in range(afloat_count):")],
    needs="a mixed integer/float sample of three dimensions whose integer coordinate is outside the axis", breaks="the sample is counted in a wrong bin",
    demo='''
import numpy as np
from skbeam.core.accumulators.histogram import Histogram
h = Histogram((2, 0., 2.), (3, 0., 3.), (4, 0., 4.))
x = np.array([0.5, 1.5]); y = np.array([7, 1]); z = np.array([2.5, 3.5])
h.fill(x, y, z)
ref = np.zeros((2, 3, 4)); ref[1, 1, 3] = 1
assert (h.values == ref).all(), np.argwhere(h.values)
''')
add(id="binary_header_dims", property="C19", file="skbeam/io/binary.py",
    edits=[("    elif ny != 1:\n        data.resize(nx, ny)", "    elif ny > 2:\n        data.resize(nx, ny)")],
    needs="an image with exactly two columns", breaks="the data of a two-column image come back one-dimensional",
    demo='''
import os, tempfile, numpy as np
from skbeam.io.binary import read_binary
d = tempfile.mkdtemp(); p = os.path.join(d, "a.raw")
a = np.arange(10, dtype="<f4").reshape(5, 2)
open(p, "wb").write(b"HDR!" + a.tobytes())
b, h = read_binary(p, 5, 2, 1, "<f4", 4)
os.unlink(p); os.rmdir(d)
assert b.shape == (5, 2) and (a == b).all(), b.shape
''')
add(id="statistics_range", property="C26", file="skbeam/core/stats.py",
    edits=[("    if max_x is None:\n        max_x = np.max(x)", "    if not max_x:\n        max_x = np.max(x)")],
    needs="an upper limit of exactly zero", breaks="a limit of zero is ignored",
    demo='''
import numpy as np
from skbeam.core.stats import statistics_1D
x = np.linspace(-5, 5, 101); y = x.copy()
e, v = statistics_1D(x, y, nx=4, min_x=-4, max_x=0)
assert e[-1] == 0, e
''')
