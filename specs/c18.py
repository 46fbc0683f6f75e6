"""C18: powder pattern files."""
import os

import numpy as np


def num(s):
    if s.strip():
        return float(s)
    return 0.0


def whole(s):
    if s.strip():
        return int(s)
    return 0


def read_fxye(file):
    t = []
    y = []
    e = []
    with open(file, "r") as fi:
        rows = fi.readlines()[2:]
        for row in rows:
            v = row.split()
            t.append(float(v[0]))
            if float(v[1]) <= 0.0:
                y.append(0.0)
            else:
                y.append(float(v[1]))
            if float(v[2]) > 0.0:
                e.append(1.0 / float(v[2]) ** 2)
            else:
                e.append(0.0)
    return [np.array(t), np.array(y), np.array(e)]


def read_esd(file):
    t = []
    y = []
    e = []
    with open(file, "r") as fi:
        rows = fi.readlines()[1:]
        start = float(rows[0].split()[5]) / 100.0
        step = float(rows[0].split()[6]) / 100.0
        n = float(rows[0].split()[2])
        j = 0
        for row in rows[1:]:
            for i in range(0, 80, 16):
                if j >= n:
                    break
                a = num(row[i:i + 8])
                b = num(row[i + 8:i + 16])
                t.append(start + step * j)
                if a > 0.0:
                    y.append(a)
                else:
                    y.append(0.0)
                if b > 0.0:
                    e.append(1.0 / b ** 2)
                else:
                    e.append(0.0)
                j += 1
    return [np.array(t), np.array(y), np.array(e)]


def read_std(file):
    t = []
    y = []
    e = []
    with open(file, "r") as fi:
        rows = fi.readlines()[1:]
        start = float(rows[0].split()[5]) / 100.0
        step = float(rows[0].split()[6]) / 100.0
        n = float(rows[0].split()[2])
        j = 0
        for row in rows[1:]:
            for i in range(0, 80, 8):
                m = max(whole(row[i:i + 2]), 1)
                a = max(num(row[i + 2:i + 8]), 0.0)
                if a:
                    v = a / m
                else:
                    a = 0.0
                    v = 0.0
                if j < n:
                    t.append(start + step * j)
                    if v <= 0.0:
                        y.append(0.0)
                        e.append(0.0)
                    else:
                        y.append(a)
                        e.append(1.0 / v)
                j += 1
    return [np.array(t), np.array(y), np.array(e)]


READERS = {"STD": read_std, "ESD": read_esd, "FXYE": read_fxye}


@spec("skbeam.io.gsas_file_reader:gsas_reader")
def gsas_reader(file):
    if os.path.splitext(file)[1] != ".gsas":
        raise IOError
    with open(file, "r") as fi:
        head = fi.readlines()[1]
        mode = head.split()[9]
    try:
        t, y, e = READERS[mode](file)
    except KeyError:
        raise ValueError
    return t, y, e


def check(tth, intensity, err, ext):
    if len(tth) != len(intensity):
        raise ValueError
    if err is not None:
        if len(intensity) != len(err):
            raise ValueError
    if ext == ".xye" and err is None:
        raise ValueError


def path(dir_path, output_name, ext):
    if dir_path is None:
        return output_name + ext
    if os.path.exists(dir_path):
        return os.path.join(dir_path, output_name) + ext
    raise ValueError


@spec("skbeam.io.save_powder_output:save_output")
def save_output(tth, intensity, output_name, q_or_2theta, ext=".chi", err=None, dir_path=None):
    if q_or_2theta not in set(["Q", "2theta"]):
        raise ValueError
    if q_or_2theta == "Q":
        des = """First column represents Q values (Angstroms) and second
        column represents intensities and if there is a third
        column it represents the error values of intensities."""
    else:
        des = """First column represents two theta values (degrees) and
        second column represents intensities and if there is
        a third column it represents the error values of intensities."""
    check(tth, intensity, err, ext)
    p = path(dir_path, output_name, ext)
    with open(p, "wb") as f:
        f.write("""{out_name}
        This file contains integrated powder x-ray diffraction
        intensities.
        {des}
        Number of data points in the file : {n_pts}
        ######################################################""".format(n_pts=len(tth), out_name=output_name,
                                                                        des=des).encode("utf-8"))
        f.write("\n".encode("utf-8"))
        if err is None:
            np.savetxt(f, np.c_[tth, intensity])
        else:
            np.savetxt(f, np.c_[tth, intensity, err])


@spec("skbeam.io.save_powder_output:gsas_writer")
def gsas_writer(tth, intensity, output_name, mode=None, err=None, dir_path=None):
    check(tth, intensity, err, ".gsas")
    p = path(dir_path, output_name, ".gsas")
    scale = 10 ** int(min(np.floor(np.log10(999999 / np.max(intensity))), 0))
    lines = []
    title = "Angular Profile" + ": %s" % output_name + " scale=%g" % scale
    lines.append("%-80s" % title[:80])
    n = len(intensity)
    first = tth[0] * 100
    step = (tth[-1] - tth[0]) / (len(tth) - 1) * 100
    if err is None:
        mode = "STD"
    if mode == "STD":
        lines.append("%-80s" % ("BANK %5i %8i %8i CONST %9.5f %9.5f %9.5f %9.5f STD" % (
            1, n, int(np.ceil(n / 10.0)), first, step, 0, 0)))
        r = ["%2i%6.0f" % (1, y * scale) for y in intensity]
        for i in range(0, len(r), 10):
            lines.append("".join(r[i:i + 10]))
    elif mode == "ESD":
        lines.append("%-80s" % ("BANK %5i %8i %8i CONST %9.5f %9.5f %9.5f %9.5f ESD" % (
            1, n, int(np.ceil(n / 5.0)), first, step, 0, 0)))
        r = ["%8.0f%8.0f" % (y * scale, e * scale) for y, e in zip(intensity, err)]
        for i in range(0, len(r), 5):
            lines.append("".join(r[i:i + 5]))
    elif mode == "FXYE":
        lines.append("%-80s" % ("BANK %5i %8i %8i CONST %9.5f %9.5f %9.5f %9.5f FXYE" % (1, n, n, first, step, 0, 0)))
        r = ["%22.10f%22.10f%24.10f" % (x, y * scale, e * scale) for x, y, e in zip(tth, intensity, err)]
        for i in range(len(r)):
            lines.append("%-80s" % r[i])
    else:
        raise ValueError
    lines[-1] = "%-80s" % lines[-1]
    with open(p, "wt") as f:
        f.write("\r\n".join(lines) + "\r\n")
