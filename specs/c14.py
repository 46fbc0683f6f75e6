"""Line shapes and count distributions."""
import numpy as np
import scipy.special
from scipy import stats
from scipy.special import gamma as gammafn, gammaln


@spec("skbeam.core.fitting.lineshapes:gaussian")
def gaussian(x, area, center, sigma):
    return area / (sigma * np.sqrt(2 * np.pi)) * np.exp(-(x - center) ** 2 / (2 * sigma ** 2))


@spec("skbeam.core.fitting.lineshapes:lorentzian")
def lorentzian(x, area, center, sigma):
    return area / (np.pi * sigma * (1 + ((x - center) / sigma) ** 2))


@spec("skbeam.core.fitting.lineshapes:lorentzian2")
def lorentzian2(x, area, center, sigma):
    return area / (np.pi * sigma * (1 + ((x - center) / sigma) ** 2) ** 2)


@spec("skbeam.core.fitting.lineshapes:voigt")
def voigt(x, area, center, sigma, gamma=None):
    if gamma is None:
        gamma = sigma
    z = (x - center + 1j * gamma) / (sigma * np.sqrt(2))
    return area * scipy.special.wofz(z).real / (sigma * np.sqrt(2 * np.pi))


@spec("skbeam.core.fitting.lineshapes:pvoigt")
def pvoigt(x, area, center, sigma, fraction):
    return (1 - fraction) * gaussian(x, area, center, sigma) + fraction * lorentzian(x, area, center, sigma)


@spec("skbeam.core.fitting.lineshapes:gausssian_step")
def gausssian_step(x, area, center, sigma, peak_e):
    return area / (2 * peak_e) * scipy.special.erfc((x - center) / (np.sqrt(2) * sigma))


@spec("skbeam.core.fitting.lineshapes:gaussian_tail")
def gaussian_tail(x, area, center, sigma, gamma):
    neg = np.array(x) - center
    neg[neg > 0] = 0
    return area * np.exp(neg / (gamma * sigma)) / (2 * gamma * sigma * np.exp(-1 / (2 * gamma ** 2))) * scipy.special.erfc(
        (x - center) / (np.sqrt(2) * sigma) + 1 / (gamma * np.sqrt(2)))


@spec("skbeam.core.fitting.lineshapes:elastic")
def elastic(x, coherent_sct_amplitude, coherent_sct_energy, fwhm_offset, fwhm_fanoprime, e_offset, e_linear, e_quadratic,
            epsilon=2.96):
    e = e_offset + x * e_linear + x ** 2 * e_quadratic
    sigma = np.sqrt((fwhm_offset / (2 * np.sqrt(2 * np.log(2)))) ** 2 + coherent_sct_energy * epsilon * fwhm_fanoprime)
    return gaussian(e, coherent_sct_amplitude, coherent_sct_energy, sigma)


@spec("skbeam.core.fitting.lineshapes:compton")
def compton(x, compton_amplitude, coherent_sct_energy, fwhm_offset, fwhm_fanoprime, e_offset, e_linear, e_quadratic,
            compton_angle, compton_fwhm_corr, compton_f_step, compton_f_tail, compton_gamma, compton_hi_f_tail,
            compton_hi_gamma, epsilon=2.96):
    e = e_offset + x * e_linear + x ** 2 * e_quadratic
    ce = coherent_sct_energy / (1 + coherent_sct_energy / 511 * (1 - np.cos(np.deg2rad(compton_angle))))
    sigma = np.sqrt((fwhm_offset / (2 * np.sqrt(2 * np.log(2)))) ** 2 + ce * epsilon * fwhm_fanoprime)
    factor = 1 / (1 + compton_f_step + compton_f_tail + compton_hi_f_tail)
    counts = np.zeros_like(e)
    counts = counts + factor * gaussian(e, compton_amplitude, ce, sigma * compton_fwhm_corr)
    if compton_f_step > 0.0:
        counts = counts + factor * compton_f_step * gausssian_step(e, compton_amplitude, ce, sigma, ce)
    counts = counts + factor * compton_f_tail * gaussian_tail(e, compton_amplitude, ce, sigma, compton_gamma)
    counts = counts + factor * compton_hi_f_tail * gaussian_tail(-e, compton_amplitude, -ce, sigma, compton_hi_gamma)
    return counts


@spec("skbeam.core.fitting.lineshapes:gamma_dist")
def gamma_dist(bin_values, K, M):
    return stats.gamma(M, 0.0, K / M).pdf(bin_values)


@spec("skbeam.core.fitting.lineshapes:nbinom_dist")
def nbinom_dist(bin_values, K, M):
    return np.exp(gammaln(bin_values + M) - gammaln(bin_values + 1) - gammaln(M)) * np.power(
        M / (K + M), M) * np.power(K / (K + M), bin_values)


@spec("skbeam.core.fitting.lineshapes:poisson_dist")
def poisson_dist(bin_values, K):
    return np.exp(-K) * np.power(K, bin_values) / gammafn(bin_values + 1)
