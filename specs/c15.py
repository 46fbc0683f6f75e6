"""C15: X-ray line tables, parameter names and activated lines."""
import copy

import numpy as np
import six
import xraylib
from skbeam.core.constants.basic import BasicElement
from skbeam.core.constants.xrf import XrayLibWrap, XrayLibWrap_Energy, XrfElement, XRAYLIB_MAP


def wrap_driver(element, what, key):
    w = XrayLibWrap(element, what)
    return w[key], w.all, len(w), list(w), w.info_type


def table(what):
    lines = {"ka1": xraylib.KA1_LINE, "ka2": xraylib.KA2_LINE, "ka3": xraylib.KA3_LINE, "kb1": xraylib.KB1_LINE,
             "kb2": xraylib.KB2_LINE, "kb3": xraylib.KB3_LINE, "kb4": xraylib.KB4_LINE, "kb5": xraylib.KB5_LINE,
             "la1": xraylib.LA1_LINE, "la2": xraylib.LA2_LINE, "lb1": xraylib.LB1_LINE, "lb2": xraylib.LB2_LINE,
             "lb3": xraylib.LB3_LINE, "lb4": xraylib.LB4_LINE, "lb5": xraylib.LB5_LINE, "lg1": xraylib.LG1_LINE,
             "lg2": xraylib.LG2_LINE, "lg3": xraylib.LG3_LINE, "lg4": xraylib.LG4_LINE, "ll": xraylib.LL_LINE,
             "ln": xraylib.LE_LINE, "ma1": xraylib.MA1_LINE, "ma2": xraylib.MA2_LINE, "mb": xraylib.MB_LINE,
             "mg": xraylib.MG_LINE}
    shells = {"k": xraylib.K_SHELL, "l1": xraylib.L1_SHELL, "l2": xraylib.L2_SHELL, "l3": xraylib.L3_SHELL,
              "m1": xraylib.M1_SHELL, "m2": xraylib.M2_SHELL, "m3": xraylib.M3_SHELL, "m4": xraylib.M4_SHELL,
              "m5": xraylib.M5_SHELL, "n1": xraylib.N1_SHELL, "n2": xraylib.N2_SHELL, "n3": xraylib.N3_SHELL,
              "n4": xraylib.N4_SHELL, "n5": xraylib.N5_SHELL, "n6": xraylib.N6_SHELL, "n7": xraylib.N7_SHELL,
              "o1": xraylib.O1_SHELL, "o2": xraylib.O2_SHELL, "o3": xraylib.O3_SHELL, "o4": xraylib.O4_SHELL,
              "o5": xraylib.O5_SHELL, "p1": xraylib.P1_SHELL, "p2": xraylib.P2_SHELL, "p3": xraylib.P3_SHELL}
    return {"lines": (lines, xraylib.LineEnergy), "cs": (lines, xraylib.CS_FluorLine_Kissel),
            "csb": (lines, xraylib.CSb_FluorLine_Kissel), "binding_e": (shells, xraylib.EdgeEnergy),
            "jump": (shells, xraylib.JumpFactor), "yield": (shells, xraylib.FluorYield)}[what]


def tables_driver():
    return (XRAYLIB_MAP["lines"], XRAYLIB_MAP["cs"], XRAYLIB_MAP["csb"], XRAYLIB_MAP["binding_e"],
            XRAYLIB_MAP["jump"], XRAYLIB_MAP["yield"])


@spec(driver="tables_driver")
def tables():
    return (table("lines"), table("cs"), table("csb"), table("binding_e"), table("jump"), table("yield"))


@spec(driver="wrap_driver", opaque=["skbeam.core.constants.xrf:XRAYLIB_MAP"])
def wrap(element, what, key):
    names, func = XRAYLIB_MAP[what]
    keys = sorted(names)

    def value(k):
        try:
            return func(element, names[k.lower()])
        except ValueError:
            return 0

    return value(key), [(k, value(k)) for k in keys], len(keys), list(keys), what


def energy_driver(element, what, energy, key, other):
    w = XrayLibWrap_Energy(element, what, energy)
    a = w[key]
    b = w.incident_energy
    w.incident_energy = other
    return a, b, w[key], w.incident_energy


@spec(driver="energy_driver", opaque=["skbeam.core.constants.xrf:XRAYLIB_MAP"])
def energy_dependent(element, what, energy, key, other):
    names, func = XRAYLIB_MAP[what]

    def value(e):
        try:
            return func(element, names[key.lower()], e)
        except ValueError:
            return 0

    return value(energy), energy, value(float(other)), float(other)


def element_driver(Z, key, e):
    x = XrfElement(Z)
    return (x.Z, x.sym, x.emission_line[key], x.bind_energy[key], x.jump_factor[key], x.fluor_yield[key], x.cs(e)[key],
            x.csb(e)[key])


@spec(driver="element_driver", opaque=["skbeam.core.constants.xrf:XRAYLIB_MAP", "skbeam.core.constants.basic:basic"])
def element_info(Z, key, e):
    b = BasicElement(Z)
    return (b.Z, b.sym, XrayLibWrap(b.Z, "lines")[key], XrayLibWrap(b.Z, "binding_e")[key],
            XrayLibWrap(b.Z, "jump")[key], XrayLibWrap(b.Z, "yield")[key], XrayLibWrap_Energy(b.Z, "cs", e)[key],
            XrayLibWrap_Energy(b.Z, "csb", e)[key])


def near_driver(Z, energy, delta_e, incident_energy):
    return XrfElement(Z).line_near(energy, delta_e, incident_energy)


@spec(driver="near_driver", opaque=["skbeam.core.constants.xrf:XRAYLIB_MAP", "skbeam.core.constants.basic:basic"])
def near(Z, energy, delta_e, incident_energy):
    e = XrfElement(Z)
    return {k: v for k, v in e.emission_line.all if e.cs(incident_energy)[k] != 0 and abs(v - energy) < delta_e}


@spec("skbeam.core.constants.xrf:emission_line_search",
      opaque=["skbeam.core.constants.xrf:XrfElement", "pure:line_near"])
def search(line_e, delta_e, incident_energy, element_list=None):
    if element_list is None:
        element_list = range(1, 101)
    out = {}
    for x in element_list:
        e = XrfElement(x)
        lines = e.line_near(line_e, delta_e, incident_energy)
        if lines:
            out[e.sym] = lines
    return out


# --------------------------------------------------------------- parameters
from skbeam.core.fitting import xrf_model
from skbeam.core.fitting.base import parameter_data as pd
from skbeam.core.fitting.xrf_model import ParamController, Element, get_activated_lines, K_LINE, L_LINE, M_LINE, \
    PARAM_DEFAULTS, TRANSITIONS_LOOKUP, _STRATEGY_REGISTRY


def names_driver():
    return K_LINE, L_LINE, M_LINE, TRANSITIONS_LOOKUP, PARAM_DEFAULTS


@spec(driver="names_driver")
def names():
    k = "Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I".split(" ")
    l = "Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ac Th Pa U Np Pu Am".split(" ")
    m = "Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Th Pa U".split(" ")
    return ([x + "_K" for x in k], [x + "_L" for x in l], [x + "_M" for x in m],
            {"K": ["ka1", "ka2", "ka3", "kb1", "kb2", "kb3", "kb4", "kb5"],
             "L": ["la1", "la2", "lb1", "lb2", "lb3", "lb4", "lb5", "lg1", "lg2", "lg3", "lg4", "ll", "ln"],
             "M": ["ma1", "ma2", "mb", "mg"]},
            {"area": {"bound_type": "none", "max": 1e9, "min": 0.0, "value": 1000.0},
             "pos": {"bound_type": "fixed", "max": 0.005, "min": -0.005, "value": 0.0},
             "ratio": {"bound_type": "fixed", "max": 5.0, "min": 0.1, "value": 1.0},
             "width": {"bound_type": "fixed", "max": 0.02, "min": -0.02, "value": 0.0}})


def active(energy, name):
    for table, letter in ((K_LINE, "k"), (L_LINE, "l"), (M_LINE, "m")):
        if name in table:
            el = name.split("_")[0]
            e = Element(el)
            if e.cs(energy)[letter + "a1"] == 0:
                return []
            return [str(el) + "_" + str(x) for x, _ in e.emission_line.all if letter in x and e.cs(energy)[x] != 0]
    return []


@spec("skbeam.core.fitting.xrf_model:get_activated_lines",
      opaque=["skbeam.core.constants.xrf:XrfElement", "pure:cs", "skbeam.core.fitting.xrf_model:K_LINE",
              "skbeam.core.fitting.xrf_model:L_LINE", "skbeam.core.fitting.xrf_model:M_LINE"])
def activated_lines(incident_energy, elemental_lines):
    out = []
    for name in elemental_lines:
        out.extend(active(incident_energy, name))
    return out


@spec("skbeam.core.fitting.xrf_model:get_line_energy", opaque=["skbeam.core.constants.xrf:XrfElement"])
def line_energy(elemental_line):
    el, line = elemental_line.split("_")
    line = line.lower()
    if len(line) == 1:
        line = line + "a1"
    elif len(line) == 2:
        line = line + "1"
    return Element(el).emission_line[line]


@spec("skbeam.core.fitting.xrf_model:get_relative_cs_ratio",
      opaque=["skbeam.core.constants.xrf:XrfElement", "skbeam.core.fitting.xrf_model:TRANSITIONS_LOOKUP", "pure:cs"])
def relative_ratio(elemental_line, energy):
    el, line = elemental_line.split("_")
    lines = TRANSITIONS_LOOKUP[line.upper()]
    e = Element(el)
    return e.cs(energy)[lines[0]] / sum([e.cs(energy)[x] for x in lines])


@spec("skbeam.core.fitting.xrf_model:sum_area", opaque=["skbeam.core.fitting.xrf_model:TRANSITIONS_LOOKUP"])
def total_area(elemental_line, result_val):
    el, line = elemental_line.split("_")
    total = 0
    for x in TRANSITIONS_LOOKUP[line]:
        base = el + "_" + x
        if base + "_area" in result_val.values:
            total += (result_val.values[base + "_area"] * result_val.values[base + "_ratio"]
                      * result_val.values[base + "_ratio_adjust"])
    return total


@spec("skbeam.core.fitting.xrf_model:extract_strategy")
def strategy_of(param, name):
    return {k: v[name] for k, v in param.items() if k != "non_fitting_values"}


@spec("skbeam.core.fitting.xrf_model:update_parameter_dict")
def updated(param, fit_results):
    for k in param:
        if k in ("coherent_sct_amplitude", "coherent_sct_energy"):
            source = "elastic_" + k
        else:
            source = k.replace("-", "_")
        if source in fit_results.values:
            param[k]["value"] = float(fit_results.values[source])


@spec("skbeam.core.fitting.xrf_model:set_parameter_bound", opaque=["skbeam.core.fitting.xrf_model:_STRATEGY_REGISTRY"])
def bounds(param, bound_option, extra_config=None):
    strategy = _STRATEGY_REGISTRY[bound_option]
    if extra_config is None:
        extra_config = {}
    for k, v in param.items():
        if k != "non_fitting_values":
            try:
                v["bound_type"] = strategy[k]
            except KeyError:
                v["bound_type"] = extra_config.get(k, "fixed")


@spec("skbeam.core.fitting.xrf_model:register_strategy", opaque=["skbeam.core.fitting.xrf_model:_STRATEGY_REGISTRY"])
def register(key, strategy, overwrite=True):
    if not overwrite and key in _STRATEGY_REGISTRY and _STRATEGY_REGISTRY[key] is strategy:
        return
    if not overwrite and key in _STRATEGY_REGISTRY:
        raise RuntimeError()
    _STRATEGY_REGISTRY[key] = strategy


def put(self, kind, name, constraint):
    if constraint is not None:
        self._element_strategy[name] = constraint
    self.params[name] = PARAM_DEFAULTS[kind]


def area_name(element):
    if element in K_LINE:
        return str(element.split("_")[0]) + "_ka1_area"
    if element in L_LINE:
        return str(element.split("_")[0]) + "_la1_area"
    if element in M_LINE:
        return str(element.split("_")[0]) + "_ma1_area"
    if "user" in element.lower():
        return str(element) + "_area"
    if "-" in element:
        return "pileup_" + element.replace("-", "_") + "_area"
    raise ValueError()


@spec("skbeam.core.fitting.xrf_model:ParamController.add_param",
      opaque=["skbeam.core.fitting.xrf_model:get_activated_lines", "skbeam.core.fitting.xrf_model:TRANSITIONS_LOOKUP",
              "skbeam.core.fitting.xrf_model:PARAM_DEFAULTS", "skbeam.core.fitting.xrf_model:K_LINE",
              "skbeam.core.fitting.xrf_model:L_LINE", "skbeam.core.fitting.xrf_model:M_LINE"])
def add_parameter(self, kind, element, constraint=None):
    if element not in self.element_list:
        self.element_list.append(element)
        self.element_linenames.extend(get_activated_lines(self.params["coherent_sct_energy"]["value"], [element]))
    if kind == "area":
        put(self, kind, area_name(element), constraint)
        return
    suffix = {"pos": "_delta_center", "width": "_delta_sigma", "ratio": "_ratio_adjust"}[kind]
    if len(element) <= 4:
        el, line = element.split("_")
        for t in TRANSITIONS_LOOKUP[line]:
            x = "{0}_{1}".format(el, t)
            if x in self.element_linenames:
                put(self, kind, str(x) + suffix, constraint)
    elif "user" in element.lower():
        put(self, kind, element + suffix, constraint)
    else:
        put(self, kind, "pileup_" + element.replace("-", "_") + suffix, constraint)


@spec("skbeam.core.fitting.xrf_model:ParamController.__init__",
      opaque=["skbeam.core.fitting.xrf_model:get_activated_lines", "skbeam.core.fitting.xrf_model:ParamController._initialize_params"])
def controller(self, params, elemental_lines):
    self._original_params = params
    self.params = params
    self.element_list = list(elemental_lines)
    self.element_linenames = get_activated_lines(params["coherent_sct_energy"]["value"], list(elemental_lines))
    self._element_strategy = {}
    self._initialize_params()


@spec("skbeam.core.fitting.xrf_model:ParamController._initialize_params", opaque=["skbeam.core.fitting.xrf_model:ParamController.add_param"])
def initialise(self):
    for element in self.element_list:
        self.add_param("pos", element)
        self.add_param("width", element)
        self.add_param("area", element)
        self.add_param("ratio", element)


@spec("skbeam.core.fitting.xrf_model:ParamController.update_element_prop", opaque=["skbeam.core.fitting.xrf_model:ParamController.add_param"])
def update_properties(self, element_list, **kwargs):
    for element in element_list:
        for kind in kwargs:
            self.add_param(kind, element, kwargs[kind])


@spec("skbeam.core.fitting.xrf_model:ParamController.set_strategy", opaque=["skbeam.core.fitting.xrf_model:_STRATEGY_REGISTRY"])
def apply_strategy(self, strategy_name):
    bounds(self.params, strategy_name, self._element_strategy)


def strategies_driver():
    return {k: {n: v[n] for n in v} for k, v in _STRATEGY_REGISTRY.items()}


@spec(driver="strategies_driver")
def strategies():
    common = {"coherent_sct_amplitude": "none", "coherent_sct_energy": "fixed", "compton_amplitude": "none",
              "compton_angle": "fixed", "compton_f_step": "fixed", "compton_f_tail": "fixed",
              "compton_fwhm_corr": "fixed", "compton_gamma": "fixed", "compton_hi_f_tail": "fixed",
              "compton_hi_gamma": "fixed", "e_linear": "fixed", "e_offset": "fixed", "e_quadratic": "fixed",
              "fwhm_fanoprime": "fixed", "fwhm_offset": "fixed", "non_fitting_values": "fixed"}
    free = ["coherent_sct_energy", "compton_angle", "compton_fwhm_corr", "e_linear", "e_offset", "e_quadratic",
            "fwhm_fanoprime", "fwhm_offset"]
    chosen = {"linear": [], "adjust_element": ["compton_fwhm_corr"], "e_calibration": ["e_linear", "e_offset"],
              "fit_with_tail": free + ["compton_f_tail"], "free_more": free + ["compton_f_step", "compton_gamma"]}
    out = {}
    for k in chosen:
        d = {n: ("lohi" if n in chosen[k] else common[n]) for n in common}
        out[k] = d
    return out
