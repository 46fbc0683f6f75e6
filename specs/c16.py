"""C16: the X-ray fluorescence fit pipeline."""
import inspect

import numpy as np
from scipy.optimize import nnls
from skbeam.core.fitting import xrf_model
from skbeam.core.fitting.lineshapes import gaussian
from skbeam.core.fitting.xrf_model import ElementModel, ModelSpectrum, get_line_energy, construct_linear_model, snip_method, \
    K_LINE, L_LINE, M_LINE, Element, get_relative_cs_ratio
from skbeam.core.fitting.base.parameter_data import get_para
from skbeam.core.fitting import lineshapes
from skbeam.core.fitting.models import ComptonModel, ElasticModel, Lorentzian2Model

STUBS = ["lmfit", "multiprocessing"]


@spec("skbeam.core.fitting.xrf_model:element_peak_xrf", opaque=["skbeam.core.fitting.lineshapes:gaussian"])
def element_peak(x, area, center, delta_center, delta_sigma, ratio, ratio_adjust, fwhm_offset, fwhm_fanoprime, e_offset,
                 e_linear, e_quadratic, epsilon=2.96):
    energy = e_offset + e_linear * x + e_quadratic * x**2
    c = center + delta_center
    sigma = np.sqrt((fwhm_offset / (2 * np.sqrt(2 * np.log(2))))**2 + c * epsilon * fwhm_fanoprime)
    return gaussian(energy, area, c, delta_sigma + sigma) * ratio * ratio_adjust


@spec("skbeam.core.fitting.xrf_model:trim")
def trimmed(x, y, low, high):
    keep = (x >= low) & (x <= high)
    return x[keep], y[keep]


@spec("skbeam.core.fitting.xrf_model:define_range")
def ranged(data, low, high, a0, a1):
    return trimmed(np.arange(data.size), data, int(np.around((low - a0) / a1)), int(np.around((high - a0) / a1)))


@spec("skbeam.core.fitting.xrf_model:compute_escape_peak")
def escape(spectrum, ratio, params, escape_e=1.73998):
    x = np.arange(len(spectrum))
    e = params["e_offset"]["value"] + params["e_linear"]["value"] * x + params["e_quadratic"]["value"] * x**2
    return e - escape_e, spectrum * ratio


@spec("skbeam.core.fitting.xrf_model:nnls_fit")
def weighted_nnls(spectrum, expected_matrix, weights=None):
    if weights is None:
        return nnls(expected_matrix, spectrum)
    w = np.sqrt(weights)
    return nnls(np.transpose(np.transpose(expected_matrix) * w), spectrum * w)


@spec("skbeam.core.fitting.xrf_model:linear_spectrum_fitting",
      opaque=["skbeam.core.fitting.xrf_model:construct_linear_model", "skbeam.core.fitting.background:snip_method",
              "skbeam.core.fitting.xrf_model:K_LINE", "skbeam.core.fitting.xrf_model:L_LINE",
              "skbeam.core.fitting.xrf_model:M_LINE"])
def linear_fit(x, y, params, elemental_lines=None, weights=None):
    if elemental_lines is None:
        elemental_lines = K_LINE + L_LINE + M_LINE
    names, matv, areas = construct_linear_model(x, params, elemental_lines)
    a, b, c = params["e_offset"]["value"], params["e_linear"]["value"], params["e_quadratic"]["value"]
    bg = snip_method(y, a, b, c, width=params["non_fitting_values"]["background_width"])
    net, m = y - bg, matv
    if weights is not None:
        m = np.transpose(np.transpose(m) * np.sqrt(weights))
        net = net * np.sqrt(weights)
    out, _ = nnls(m, net)
    curves, area = {}, {}
    for name, y, o in zip(names, np.transpose(out * matv), out):
        if np.sum(y) != 0:
            curves[name] = y
            area[name] = o * areas[name]
    curves["background"] = bg
    area["background"] = np.sum(bg)
    return a + b * x + c * x**2, curves, area


@spec("skbeam.core.fitting.xrf_model:fit_per_line_nnls", opaque=["skbeam.core.fitting.background:snip_method"])
def fit_line(data, matv, param, use_snip):
    out = []
    for y in data:
        if use_snip:
            bg = snip_method(y, param["e_offset"]["value"], param["e_linear"]["value"], param["e_quadratic"]["value"],
                             width=param["non_fitting_values"]["background_width"])
            total = np.sum(bg)
            result, res = nnls(matv, y - bg)
        else:
            total = 0
            result, res = nnls(matv, y)
        out.append(list(result) + [total, 1 - res / np.sum((y - np.mean(y))**2)])
    return np.array(out)


@spec("skbeam.core.fitting.xrf_model:calculate_area",
      opaque=["skbeam.core.fitting.xrf_model:get_relative_cs_ratio", "skbeam.core.fitting.xrf_model:K_LINE",
              "skbeam.core.fitting.xrf_model:L_LINE", "skbeam.core.fitting.xrf_model:M_LINE"])
def areas(e_select, matv, results, param, first_peak_area=False):
    s = np.sum(matv, axis=0)
    out = {}
    for i in range(len(e_select)):
        ratio = 1
        if first_peak_area is True and e_select[i] in K_LINE + L_LINE + M_LINE:
            ratio = get_relative_cs_ratio(e_select[i], param["coherent_sct_energy"]["value"])
        out[e_select[i]] = results[:, :, i] * s[i] * ratio
    out["snip_bkg"] = results[:, :, -2]
    out["r_squared"] = results[:, :, -1]
    return out


def hint(name, p, model):
    kind, value = p["bound_type"], p["value"]
    if kind == "none":
        model.set_param_hint(name, value=value, vary=True)
    elif kind == "fixed":
        model.set_param_hint(name, value=value, vary=False)
    elif kind == "lohi":
        model.set_param_hint(name, value=value, vary=True, min=p["min"], max=p["max"])
    elif kind == "lo":
        model.set_param_hint(name, value=value, vary=True, min=p["min"])
    elif kind == "hi":
        model.set_param_hint(name, value=value, vary=True, max=p["max"])
    else:
        raise ValueError()


def hint_driver(param_name, value, kind, low, high, model):
    m = ElementModel(prefix=model)
    xrf_model._set_parameter_hint(param_name, {"value": value, "bound_type": kind, "min": low, "max": high}, m)
    return m.param_hints


@spec(driver="hint_driver")
def hints(param_name, value, kind, low, high, model):
    m = ElementModel(prefix=model)
    hint(param_name, {"value": value, "bound_type": kind, "min": low, "max": high}, m)
    return m.param_hints


SHARED = ["e_offset", "e_linear", "e_quadratic", "fwhm_offset", "fwhm_fanoprime"]


def peak(self, prefix, shared):
    m = ElementModel(prefix=prefix)
    for name in shared:
        m.set_param_hint(name, value=self.compton_param[name].value, expr=None)
    m.set_param_hint("epsilon", value=self.epsilon, vary=False)
    return m


def requested(self, prefix, m, names):
    for n in names:
        if prefix + n in self.params:
            hint(n, self.params[prefix + n], m)


def single(self, prefix, center, default_area):
    m = peak(self, prefix, SHARED)
    if prefix + "area" in self.params:
        default_area = self.params[prefix + "area"]["value"]
    m.set_param_hint("area", value=default_area, vary=True, min=0)
    m.set_param_hint("delta_center", value=0, vary=False)
    m.set_param_hint("delta_sigma", value=0, vary=False)
    m.set_param_hint("center", value=center, vary=False)
    m.set_param_hint("ratio", value=1.0, vary=False)
    m.set_param_hint("ratio_adjust", value=1, vary=False)
    requested(self, prefix, m, ["area", "delta_center", "delta_sigma", "ratio_adjust"])
    return m


def series(self, element, letter, area):
    e = Element(element)
    energy = self.incident_energy
    main = letter + "a1"
    if e.cs(energy)[main] == 0:
        return None
    total = None
    for line, center in e.emission_line.all:
        if letter not in line or e.cs(energy)[line] == 0:
            continue
        prefix = str(element) + "_" + str(line) + "_"
        m = peak(self, prefix, SHARED)
        if prefix + "area" in self.params:
            area = self.params[prefix + "area"]["value"]
        first = str(element) + "_" + main + "_"
        m.set_param_hint("delta_center", value=0, vary=False)
        m.set_param_hint("delta_sigma", value=0, vary=False)
        if line == main:
            m.set_param_hint("area", value=area, vary=True)
            if letter == "k":
                m.set_param_hint("area", min=0)
        else:
            m.set_param_hint("area", value=area, vary=True, expr=first + "area")
            if letter == "k" and line == "ka2":
                m.set_param_hint("delta_center", expr=first + "delta_center")
                m.set_param_hint("delta_sigma", expr=first + "delta_sigma")
        if letter != "k":
            m.set_param_hint("sigma", value=1, vary=False)
        m.set_param_hint("center", value=center, vary=False)
        m.set_param_hint("ratio", value=e.cs(energy)[line] / e.cs(energy)[main], vary=False)
        m.set_param_hint("ratio_adjust", value=1, vary=False)
        requested(self, prefix, m, ["area", "delta_center", "delta_sigma", "ratio_adjust"])
        if total:
            total += m
        else:
            total = m
    return total


def element_driver(params, lines, elemental_line, default_area):
    return ModelSpectrum(params, lines).setup_element_model(elemental_line, default_area)


@spec(driver="element_driver",
      opaque=["skbeam.core.fitting.xrf_model:ModelSpectrum.setup_compton_model", "pure:setup_compton_model",
              "skbeam.core.fitting.xrf_model:ModelSpectrum.setup_elastic_model", "pure:setup_elastic_model",
              "skbeam.core.constants.xrf:XrfElement", "pure:cs", "skbeam.core.fitting.xrf_model:get_line_energy",
              "skbeam.core.fitting.xrf_model:K_LINE", "skbeam.core.fitting.xrf_model:L_LINE",
              "skbeam.core.fitting.xrf_model:M_LINE"])
def element_model(params, lines, elemental_line, default_area):
    self = ModelSpectrum(params, lines)
    if elemental_line in K_LINE:
        return series(self, elemental_line.split("_")[0], "k", default_area)
    elif elemental_line in L_LINE:
        return series(self, elemental_line.split("_")[0], "l", default_area)
    elif elemental_line in M_LINE:
        return series(self, elemental_line.split("_")[0], "m", default_area)
    elif "user" in elemental_line.lower():
        return single(self, elemental_line + "_", 5.0, default_area)
    else:
        a, b = elemental_line.split("-")
        return single(self, "pileup_" + elemental_line.replace("-", "_") + "_", get_line_energy(a) + get_line_energy(b),
                      default_area)


COMPTON = ["coherent_sct_energy", "compton_amplitude", "compton_angle", "fwhm_offset", "fwhm_fanoprime", "e_offset",
           "e_linear", "e_quadratic", "compton_gamma", "compton_f_tail", "compton_f_step", "compton_fwhm_corr",
           "compton_hi_gamma", "compton_hi_f_tail"]


def compton_driver(params, lines):
    m = ModelSpectrum(params, lines)
    return m.compton, m.compton_param, m.incident_energy, m.epsilon, m.params, m.elemental_lines


@spec(driver="compton_driver",
      opaque=["skbeam.core.fitting.xrf_model:ModelSpectrum.setup_elastic_model", "pure:setup_elastic_model",
              "pure:make_params"])
def compton_part(params, lines):
    m = ComptonModel()
    for name in COMPTON:
        if name in params:
            hint(name, params[name], m)
    m.set_param_hint("epsilon", value=params["non_fitting_values"]["epsilon"], vary=False)
    return (m, m.make_params(), params["coherent_sct_energy"]["value"], params["non_fitting_values"]["epsilon"], params,
            list(lines))


def elastic_driver(params, lines):
    m = ModelSpectrum(params, lines)
    return m.elastic


@spec(driver="elastic_driver",
      opaque=["skbeam.core.fitting.xrf_model:ModelSpectrum.setup_compton_model", "pure:setup_compton_model"])
def elastic_part(params, lines):
    self = ModelSpectrum(params, lines)
    m = ElasticModel(prefix="elastic_")
    for name in SHARED + ["coherent_sct_energy"]:
        m.set_param_hint(name, value=self.compton_param[name].value, expr=None)
    for name in SHARED + ["coherent_sct_energy", "coherent_sct_amplitude"]:
        if name in params:
            hint(name, params[name], m)
    m.set_param_hint("epsilon", value=params["non_fitting_values"]["epsilon"], vary=False)
    return m


def assembled_driver(params, lines):
    m = ModelSpectrum(params, lines)
    m.assemble_models()
    return m.mod


@spec(driver="assembled_driver",
      opaque=["skbeam.core.fitting.xrf_model:ModelSpectrum.setup_compton_model", "pure:setup_compton_model",
              "skbeam.core.fitting.xrf_model:ModelSpectrum.setup_elastic_model", "pure:setup_elastic_model",
              "skbeam.core.fitting.xrf_model:ModelSpectrum.setup_element_model", "pure:setup_element_model"])
def assembled(params, lines):
    m = ModelSpectrum(params, lines)
    total = m.compton + m.elastic
    for line in list(lines):
        part = m.setup_element_model(line)
        if part:
            total += part
    for name, h in total.param_hints.items():
        if name.startswith("compton"):
            continue
        shared = SHARED
        if name.startswith("elastic"):
            shared = SHARED + ["coherent_sct_energy"]
        for label in shared:
            if name.endswith(label) and label != name:
                h[label] = m.compton_param[label].value
                h["expr"] = label
    return total


@spec("skbeam.core.fitting.xrf_model:ModelSpectrum.model_fit", opaque=["pure:make_params", "pure:fit"])
def model_fit(self, channel_number, spectrum, weights=None, method="leastsq", **kwargs):
    return self.mod.fit(spectrum, self.mod.make_params(), x=channel_number, weights=weights, method=method, **kwargs)


@spec("skbeam.core.fitting.xrf_model:construct_linear_model",
      opaque=["skbeam.core.fitting.xrf_model:ModelSpectrum", "pure:setup_element_model", "pure:make_params", "pure:eval"])
def linear_model(channel_number, params, elemental_lines, default_area=100):
    spectrum = ModelSpectrum(params, elemental_lines)
    names, columns, areas = [], [], {}
    for line in elemental_lines:
        m = spectrum.setup_element_model(line, default_area=default_area)
        if m:
            p = m.make_params()
            for k, v in p.items():
                if "area" in k:
                    areas[line] = v.value
            columns.append(m.eval(x=channel_number, params=p))
            names.append(line)
    p = spectrum.compton.make_params()
    columns.append(spectrum.compton.eval(x=channel_number, params=p))
    names.append("compton")
    areas["compton"] = p["compton_amplitude"].value
    q = spectrum.elastic.make_params()
    columns.append(spectrum.elastic.eval(x=channel_number, params=q))
    areas["elastic"] = q["elastic_coherent_sct_amplitude"].value
    names.append("elastic")
    return names, np.array(columns).T, areas


@spec("skbeam.core.fitting.models:set_default", opaque=["skbeam.core.fitting.base.parameter_data:get_para"])
def set_default(model_name, func_name):
    table = get_para()
    for name in inspect.getfullargspec(func_name).args[1:]:
        if name in table:
            p = table[name]
            if p["bound_type"] == "none":
                model_name.set_param_hint(name, vary=True)
            elif p["bound_type"] == "fixed":
                model_name.set_param_hint(name, vary=False, value=p["value"])
            elif p["bound_type"] == "lo":
                model_name.set_param_hint(name, value=p["value"], vary=True, min=p["min"])
            elif p["bound_type"] == "hi":
                model_name.set_param_hint(name, value=p["value"], vary=True, max=p["max"])
            elif p["bound_type"] == "lohi":
                model_name.set_param_hint(name, value=p["value"], vary=True, min=p["min"], max=p["max"])
            else:
                raise TypeError()


@spec("skbeam.core.fitting.xrf_model:fit_pixel_multiprocess_nnls", opaque=["skbeam.core.fitting.xrf_model:fit_per_line_nnls"])
def fit_pixels(exp_data, matv, param, use_snip=False):
    return np.array([xrf_model.fit_per_line_nnls(row, matv, param, use_snip) for row in exp_data])


@spec("skbeam.core.fitting.xrf_model:_copy_model_param_hints_EXPR", optional=True, opaque=["pure:startswith"])
def shared_hints(target, source, *, param_hints_elements=None, param_hints_elastic=None):
    for name, h in target.param_hints.items():
        shared = param_hints_elements
        if name.startswith("elastic"):
            shared = param_hints_elastic
        if shared is None:
            shared = []
        if not name.startswith("compton"):
            for label in shared:
                if name.endswith(label) and label != name:
                    h[label] = source[label].value
                    h["expr"] = label


def classes_driver(prefix):
    a, b, c, d = ComptonModel(prefix=prefix), ElasticModel(prefix=prefix), ElementModel(prefix=prefix), Lorentzian2Model(prefix=prefix)
    return a.func, a.param_hints, b.func, b.param_hints, c.func, c.param_hints, d.func, (a.prefix, b.prefix, c.prefix, d.prefix)


@spec(driver="classes_driver")
def classes(prefix):
    eps = {"epsilon.value": 2.96, "epsilon.vary": False}
    return (lineshapes.compton, eps, lineshapes.elastic, eps, xrf_model.element_peak_xrf, eps, lineshapes.lorentzian2,
            (prefix, prefix, prefix, prefix))
