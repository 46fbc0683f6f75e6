"""C30: image arithmetic."""
import numpy as np
from skbeam.core import arithmetic


@spec("skbeam.core.arithmetic:logical_nand")
def logical_nand(x1, x2, out=None):
    return np.logical_not(np.logical_and(x1, x2, out), out)


@spec("skbeam.core.arithmetic:logical_nor")
def logical_nor(x1, x2, out=None):
    return np.logical_not(np.logical_or(x1, x2, out), out)


@spec("skbeam.core.arithmetic:logical_sub")
def logical_sub(x1, x2, out=None):
    return np.logical_and(x1, np.logical_not(x2), out)


def names_driver():
    return (arithmetic.add, arithmetic.subtract, arithmetic.multiply, arithmetic.divide, arithmetic.logical_and,
            arithmetic.logical_or, arithmetic.logical_xor, arithmetic.logical_not)


@spec(driver="names_driver")
def names():
    return (np.add, np.subtract, np.multiply, np.divide, np.logical_and, np.logical_or, np.logical_xor, np.logical_not)
