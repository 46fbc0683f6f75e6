"""C19: raw binary volumes and detector masks on disk."""
import os

import fabio
import numpy as np
from fabio.fit2dmaskimage import Fit2dMaskImage
from skbeam.io.binary import read_binary as rb


@spec("skbeam.io.binary:read_binary")
def read_binary(filename, nx, ny, nz, dtype_str, headersize):
    with open(filename, "rb") as f:
        header = f.read(headersize)
        data = np.fromfile(file=f, dtype=np.dtype(dtype_str), count=-1)
    if nz != 1:
        data.resize(nx, ny, nz)
    elif ny != 1:
        data.resize(nx, ny)
    return data, header


def path(dir_path, output_name, ext):
    if dir_path is None:
        return output_name + ext
    if os.path.exists(dir_path):
        return os.path.join(dir_path, output_name) + ext
    raise ValueError


@spec("skbeam.io.fit2d:fit2d_save")
def fit2d_save(mask, filename, dir_path=None):
    saver = Fit2dMaskImage(data=~mask)
    saver.write(path(dir_path, filename, ".msk"))


@spec("skbeam.io.fit2d:read_fit2d_msk")
def read_fit2d_msk(filename):
    return ~fabio.open(filename).data.astype(bool)
