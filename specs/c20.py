"""C20: element data base and calibration standards."""
import os

import numpy as np
import six
from itertools import repeat
from skbeam.core.constants.basic import BasicElement, data_dir, element, basic
from skbeam.core.constants import basic as basic_module
from skbeam.core.constants.xrs import HKL, PowderStandard, Reflection, calibration_standards


@spec("skbeam.core.constants.basic:read_atomic_constants")
def read_atomic_constants():
    table = {}
    names = []
    with open(os.path.join(data_dir, "AtomicConstants.dat"), "r") as f:
        for line in f:
            if line.split()[0] == "#S":
                sym = line.split()[2]
                Z = int(line.split()[1])
                if Z == 1000:
                    break
            elif not names and line.split()[0] == "#L":
                names = ["Atomic number", "Element symbol (Fe, Cr, etc.)", "Full element name (Iron, Chromium, etc."]
                names += line.split()[1:]
            elif line.startswith("#UNAME"):
                name = line.split()[1]
            elif line[0] == "#":
                continue
            else:
                table[sym.lower()] = element(*([Z, sym, name] + [float(x) for x in line.split()]))
    return table, names


def lookup_driver(Z):
    e = BasicElement(Z)
    return e.Z, e.sym, e.name, e.atomic_radius, e.covalent_radius, e.mass, e.bp, e.mp, e.density, e.atomic_volume, \
        e.coherent_scattering_length, e.incoherent_crosssection, e.absorption, e.debye_temp, e.thermal_conductivity


@spec(driver="lookup_driver", opaque=["skbeam.core.constants.basic:basic"])
def lookup(Z):
    if isinstance(Z, six.string_types):
        Z = Z.lower()
    e = basic[Z]
    return e.Z, e.sym, e.name, e.atomic_radius, e.covalent_radius, e.mass, e.bp, e.mp, e.density, e.atomic_volume, \
        e.coherent_scattering_length, e.incoherent_crosssection, e.absorption, e.debye_temp, e.thermal_conductivity


def item_driver(Z, what):
    return BasicElement(Z)[what]


@spec(driver="item_driver", opaque=["skbeam.core.constants.basic:basic"])
def item(Z, what):
    return getattr(BasicElement(Z), what)


def order_driver(a, b):
    return BasicElement(a) == BasicElement(b), BasicElement(a) < BasicElement(b)


@spec(driver="order_driver", opaque=["skbeam.core.constants.basic:basic"])
def order(a, b):
    return lookup(a)[0] == lookup(b)[0], lookup(a)[0] < lookup(b)[0]


def table_driver():
    return basic


@spec(driver="table_driver")
def table():
    t, n = read_atomic_constants()
    t.update({e.Z: e for e in t.values()})
    t.update({e.name.lower(): e for e in t.values()})
    t.update({e.sym.lower(): e for e in t.values()})
    return t


def q_of_twotheta(tt, wavelength):
    return 4 * np.pi / wavelength * np.sin(np.asarray(tt) / 2)


def hkl_driver(h, k, l):
    x = HKL(h, k, l)
    return x.h, x.k, x.l


@spec(driver="hkl_driver")
def hkl(h, k, l):
    return int(h), int(k), int(l)


def standard_driver(name, reflections):
    s = PowderStandard(name, reflections)
    return s.name, s.reflections, len(s), list(s)


@spec(driver="standard_driver")
def standard(name, reflections):
    r = sorted([Reflection(d, HKL(*h), q) for d, h, q in reflections], key=lambda x: x[-1])
    return name, r, len(r), list(r)


def from_d_driver(name, d, h):
    return PowderStandard.from_d(name, d, h).reflections


@spec(driver="from_d_driver")
def from_d(name, d, h):
    q = 2 * np.pi / np.asarray(d)
    if h is None:
        h = repeat((0, 0, 0))
    return sorted([Reflection(a, HKL(*b), c) for a, b, c in zip(d, h, q)], key=lambda x: x[-1])


def twotheta_driver(name, d, h, wavelength):
    return PowderStandard.from_d(name, d, h).convert_2theta(wavelength)


@spec(driver="twotheta_driver")
def twotheta(name, d, h, wavelength):
    q = np.array([x.q for x in from_d(name, d, h)])
    return 2 * np.arcsin(q * wavelength / (4 * np.pi))


def from_angles_driver(name, wavelength, two_theta, h):
    return PowderStandard.from_lambda_2theta_hkl(name, wavelength, two_theta, h).reflections


@spec(driver="from_angles_driver")
def from_angles(name, wavelength, two_theta, h):
    q = 4 * np.pi / wavelength * np.sin(np.asarray(two_theta) / 2)
    d = 2 * np.pi / np.asarray(q)
    if h is None:
        h = repeat((0, 0, 0))
    return sorted([Reflection(a, HKL(*b), c) for a, b, c in zip(d, h, q)], key=lambda x: x[-1])


def si_driver():
    return calibration_standards["Si"].reflections, calibration_standards["Si"].name


@spec(driver="si_driver")
def si():
    return from_angles(name='Si', wavelength=1.5405929, two_theta=np.deg2rad([28.441, 47.3, 56.119, 69.126, 76.371, 88.024, 94.946, 106.7, 114.082, 127.532, 136.877]), h=((1, 1, 1), (2, 2, 0), (3, 1, 1), (4, 0, 0), (3, 3, 1), (4, 2, 2), (5, 1, 1), (4, 4, 0), (5, 3, 1), (6, 2, 0), (5, 3, 3))), "Si"


def ceo2_driver():
    return calibration_standards["CeO2"].reflections, calibration_standards["CeO2"].name


@spec(driver="ceo2_driver")
def ceo2():
    return from_angles(name='CeO2', wavelength=1.5405929, two_theta=np.deg2rad([28.61, 33.14, 47.54, 56.39, 59.14, 69.46]), h=((1, 1, 1), (2, 0, 0), (2, 2, 0), (3, 1, 1), (2, 2, 2), (4, 0, 0))), "CeO2"


def al2o3_driver():
    return calibration_standards["Al2O3"].reflections, calibration_standards["Al2O3"].name


@spec(driver="al2o3_driver")
def al2o3():
    return from_angles(name='Al2O3', wavelength=1.5405929, two_theta=np.deg2rad([25.574, 35.149, 37.773, 43.351, 52.548, 57.497, 66.513, 68.203, 76.873, 77.233, 84.348, 88.994, 91.179, 95.24, 101.07, 116.085, 116.602, 117.835, 122.019, 127.671, 129.87, 131.098, 136.056, 142.314, 145.153, 149.185, 150.102, 150.413, 152.38]), h=((0, 1, 2), (1, 0, 4), (1, 1, 0), (1, 1, 3), (0, 2, 4), (1, 1, 6), (2, 1, 4), (3, 0, 0), (1, 0, 10), (1, 1, 9), (2, 2, 3), (0, 2, 10), (1, 3, 4), (2, 2, 6), (2, 1, 10), (3, 2, 4), (0, 1, 14), (4, 1, 0), (4, 1, 3), (1, 3, 10), (3, 0, 12), (2, 0, 14), (1, 4, 6), (1, 1, 15), (4, 0, 10), (0, 5, 4), (1, 2, 14), (1, 0, 16), (3, 3, 0))), "Al2O3"


def lab6_driver():
    return calibration_standards["LaB6"].reflections, calibration_standards["LaB6"].name


@spec(driver="lab6_driver")
def lab6():
    return from_d(name='LaB6', d=[4.156, 2.939, 2.399, 2.078, 1.859, 1.697, 1.469, 1.385, 1.314, 1.253, 1.2, 1.153, 1.111, 1.039, 1.008, 0.98, 0.953, 0.929, 0.907, 0.886, 0.848, 0.831, 0.815, 0.8], h=None), "LaB6"


def ni_driver():
    return calibration_standards["Ni"].reflections, calibration_standards["Ni"].name


@spec(driver="ni_driver")
def ni():
    return from_d(name='Ni', d=[2.03458234862, 1.762, 1.24592214845, 1.06252597829, 1.01729117431, 0.881, 0.80846104616, 0.787990355271, 0.719333487797, 0.678194116208, 0.622961074225, 0.595664718733, 0.587333333333, 0.557193323722, 0.537404961852, 0.531262989146, 0.508645587156, 0.493458701611, 0.488690872874, 0.47091430825, 0.458785722296, 0.4405, 0.430525121912, 0.427347771314], h=None), "Ni"
