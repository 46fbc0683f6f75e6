"""Reciprocal-space conversion."""
from collections import namedtuple

import numpy as np
from skbeam.ext import ctrans
from pyFAI import geometry as geo

gisaxs_output = namedtuple("gisaxs_output", ["alpha_i", "theta_f", "alpha_f", "tilt_angle", "qx", "qy", "qz", "qr"])


@spec("skbeam.core.recip:process_to_q")
def process_to_q(setting_angles, detector_size, pixel_size, calibrated_center, dist_sample, wavelength, ub,
                 frame_mode=None):
    if frame_mode is None:
        mode = 4
    else:
        mode = {"theta": 1, "phi": 2, "cart": 3, "hkl": 4}[frame_mode]
    angles = np.atleast_2d(setting_angles)
    if angles.ndim != 2:
        raise ValueError
    if angles.shape[1] != 6:
        raise ValueError
    return ctrans.ccdToQ(angles=angles * np.pi / 180, mode=mode, ccd_size=detector_size, ccd_pixsize=pixel_size,
                         ccd_cen=calibrated_center, dist=dist_sample, wavelength=wavelength,
                         UBinv=np.linalg.inv(np.asarray(ub)))


@spec("skbeam.core.recip:hkl_to_q")
def hkl_to_q(hkl_arr):
    return np.linalg.norm(hkl_arr, axis=1)


@spec("skbeam.core.recip:calibrated_pixels_to_q", observe=("ret",))
def calibrated_pixels_to_q(detector_size, pyfai_kwargs):
    return geo.Geometry(**pyfai_kwargs).qArray(detector_size)


@spec("skbeam.core.recip:gisaxs")
def gisaxs(incident_beam, reflected_beam, pixel_size, detector_size, dist_sample, wavelength, theta_i=0.0):
    ix, iy = incident_beam
    rx, ry = reflected_beam
    px = np.asarray(pixel_size)[0] / 10 ** 6
    py = np.asarray(pixel_size)[1] / 10 ** 6
    tilt = np.arctan2((rx - ix) * px, (ry - iy) * py)
    ai = np.arctan2((ry - iy) * py, dist_sample) / 2
    y, x = np.indices(detector_size)
    af = np.arctan2((y - iy) * py, dist_sample) - ai
    tf = np.arctan2((x - ix) * px, dist_sample) / 2 - theta_i
    k = 2 * np.pi / wavelength
    qx = k * (np.cos(af) * np.cos(2 * tf) - np.cos(ai) * np.cos(2 * theta_i))
    u = np.cos(af) * np.sin(2 * tf) - np.cos(ai) * np.sin(2 * theta_i)
    w = np.sin(af) + np.sin(ai)
    qy = k * (w * np.sin(tilt) + u * np.cos(tilt))
    qz = k * (w * np.cos(tilt) - u * np.sin(tilt))
    return gisaxs_output(ai, tf, af, tilt, qx, qy, qz, np.sqrt(qx ** 2 + qy ** 2))
