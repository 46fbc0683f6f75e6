"""C02: an interrupted streaming computation continues where it stopped.

Both sides are the repository's own code (self-composition): the images fed in
one go, and fed in parts with the state handed over."""
import numpy as np
from skbeam.core import correlation, dpc


def one_resumed(a, b, c, num_levels, num_bufs, labels):
    for first in correlation.lazy_one_time([a], num_levels, num_bufs, labels):
        pass
    for last in correlation.lazy_one_time([b, c], num_levels, num_bufs, labels, internal_state=first.internal_state):
        pass
    return last


@spec(driver="one_resumed", doms={"num_levels": "posint", "num_bufs": "posint"})
def one_whole(a, b, c, num_levels, num_bufs, labels):
    for last in correlation.lazy_one_time([a, b, c], num_levels, num_bufs, labels):
        pass
    return last


def one_parts(a, b, c, d, num_levels, num_bufs, labels):
    for r in correlation.lazy_one_time([a, b], num_levels, num_bufs, labels):
        pass
    for r in correlation.lazy_one_time([c], num_levels, num_bufs, labels, internal_state=r.internal_state):
        pass
    for r in correlation.lazy_one_time([d], num_levels, num_bufs, labels, internal_state=r.internal_state):
        pass
    return r.g2, r.lag_steps


@spec(driver="one_parts", doms={"num_levels": "posint", "num_bufs": "posint"})
def one_four(a, b, c, d, num_levels, num_bufs, labels):
    return correlation.multi_tau_auto_corr(num_levels, num_bufs, labels, [a, b, c, d])


def one_stepwise(a, b, num_levels, num_bufs, labels):
    out = []
    state = None
    for im in [a, b]:
        for r in correlation.lazy_one_time([im], num_levels, num_bufs, labels, internal_state=state):
            out.append(r.g2)
            state = r.internal_state
    return out


@spec(driver="one_stepwise", doms={"num_levels": "posint", "num_bufs": "posint"})
def one_every_image(a, b, num_levels, num_bufs, labels):
    return [r.g2 for r in correlation.lazy_one_time([a, b], num_levels, num_bufs, labels)]


def two_resumed(labels, a, b, c, num_frames, num_bufs, num_levels):
    for s in correlation.lazy_two_time(labels, [a], num_frames, num_bufs, num_levels):
        pass
    for s in correlation.lazy_two_time(labels, [b, c], num_frames, num_bufs, num_levels, two_time_internal_state=s):
        pass
    return s


@spec(driver="two_resumed", doms={"num_levels": "posint", "num_bufs": "posint", "num_frames": "posint"})
def two_whole(labels, a, b, c, num_frames, num_bufs, num_levels):
    for s in correlation.lazy_two_time(labels, [a, b, c], num_frames, num_bufs, num_levels):
        pass
    return s


def two_parts(labels, a, b, c, num_frames, num_bufs, num_levels):
    for s in correlation.lazy_two_time(labels, [a, b], num_frames, num_bufs, num_levels):
        pass
    for s in correlation.lazy_two_time(labels, [c], num_frames, num_bufs, num_levels, two_time_internal_state=s):
        pass
    r = correlation.two_time_state_to_results(s)
    return r.g2, r.lag_steps


@spec(driver="two_parts", doms={"num_levels": "posint", "num_bufs": "posint", "num_frames": "posint"})
def two_three(labels, a, b, c, num_frames, num_bufs, num_levels):
    r = correlation.two_time_corr(labels, [a, b, c], num_frames, num_bufs, num_levels)
    return r.g2, r.lag_steps


def dpc_resumed(ref, a, b, c, start_point, scan_rows, scan_cols, solver, roi, bad_pixels):
    for s in dpc.lazy_dpc(ref, [a], start_point, scan_rows, scan_cols, solver, roi, bad_pixels):
        pass
    for s in dpc.lazy_dpc(ref, [b, c], start_point, scan_rows, scan_cols, solver, roi, bad_pixels, dpc_state=s):
        pass
    return s


@spec(driver="dpc_resumed", opaque=["skbeam.core.dpc:dpc_fit"])
def dpc_whole(ref, a, b, c, start_point, scan_rows, scan_cols, solver, roi, bad_pixels):
    for s in dpc.lazy_dpc(ref, [a, b, c], start_point, scan_rows, scan_cols, solver, roi, bad_pixels):
        pass
    return s


def dpc_parts(ref, a, b, c, d, start_point, scan_rows, scan_cols, solver, roi, bad_pixels):
    for s in dpc.lazy_dpc(ref, [a, b], start_point, scan_rows, scan_cols, solver, roi, bad_pixels):
        pass
    for s in dpc.lazy_dpc(ref, [c], start_point, scan_rows, scan_cols, solver, roi, bad_pixels, dpc_state=s):
        pass
    for s in dpc.lazy_dpc(ref, [d], start_point, scan_rows, scan_cols, solver, roi, bad_pixels, dpc_state=s):
        pass
    return s.gx, s.gy, s.ax, s.ay, s.index


@spec(driver="dpc_parts", opaque=["skbeam.core.dpc:dpc_fit"])
def dpc_four(ref, a, b, c, d, start_point, scan_rows, scan_cols, solver, roi, bad_pixels):
    for s in dpc.lazy_dpc(ref, [a, b, c, d], start_point, scan_rows, scan_cols, solver, roi, bad_pixels):
        pass
    return s.gx, s.gy, s.ax, s.ay, s.index
