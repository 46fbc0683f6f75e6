"""Which requirement modules and analyses decide which property."""
from . import cbound, cown, crace, filesafe, purity, pyxrules, resource, stream
from .props import prop

ARRAYS = "numpy/scipy operators are uninterpreted except for the algebra in sbv/npmodel.py; floating-point rounding is ignored"

prop("C03", ["c03"], assumptions=[ARRAYS])
prop("C04", ["c04"], assumptions=[ARRAYS])
prop("C05", ["c05"], assumptions=[ARRAYS])
prop("C06", ["c06"], assumptions=[ARRAYS])
prop("C07", ["c07"], [crace.analyse], assumptions=[ARRAYS, "CPython and numpy C API functions behave as documented",
                                                 "C integers are mathematical integers; malloc'ed blocks are disjoint"])
prop("C08", [], [cown.analyse], assumptions=["CPython and numpy C API functions follow their documented reference rules"])
prop("C09", [], [cbound.analyse], assumptions=["C integers do not overflow", "CPython and numpy C API functions behave as documented"])
prop("C10", ["c10", "c13:bin_edges_to_centers"], assumptions=[ARRAYS])
prop("C13", ["c13"], assumptions=[ARRAYS])
prop("C11", ["c11", "c13:bin_edges_to_centers", "c13:radial_grid", "c13:angle_grid"], assumptions=[ARRAYS])
prop("C12", ["c12"], assumptions=[ARRAYS])
prop("C14", ["c14"], assumptions=[ARRAYS])
prop("C15", ["c15"], assumptions=[ARRAYS])
prop("C16", ["c16", "c14:gaussian", "c15:get_line_energy", "c15:get_relative_cs_ratio", "c15:sum_area", "c17:snip_method"], assumptions=[ARRAYS, "lmfit and multiprocessing are replaced by the stubs in specs/stubs"])
prop("C17", ["c17"], assumptions=[ARRAYS])
prop("C18", ["c18"], [filesafe.analyse("C18")], assumptions=[ARRAYS])
prop("C19", ["c19"], [filesafe.analyse("C19")], assumptions=[ARRAYS])
prop("C20", ["c20"], assumptions=[ARRAYS])
prop("C21", ["c21"], assumptions=[ARRAYS])
prop("C22", ["c22"], assumptions=[ARRAYS])
prop("C23", ["c23"], assumptions=[ARRAYS])
prop("C24", ["c24", "c13:geometric_series", "c13:bin_edges_to_centers", "c06:extract_label_indices", "c06:roi_max_counts"], assumptions=[ARRAYS])
prop("C25", ["c25"], assumptions=[ARRAYS])
prop("C26", ["c26"], assumptions=[ARRAYS])
prop("C27", ["c27"], assumptions=[ARRAYS])
prop("C28", ["c28"], assumptions=[ARRAYS])
prop("C29", ["c29"], assumptions=[ARRAYS])
prop("C30", ["c30"], assumptions=[ARRAYS])
prop("C32", ["c32"], assumptions=[ARRAYS])
prop("C33", ["c33"], [pyxrules.analyse], assumptions=[ARRAYS, "coordinate arrays are one-dimensional", "arithmetic is exact"])
ALIAS = "a call the analysis does not resolve returns a new object and changes nothing; numpy views are as listed in sbv/purity.py"
prop("C01", [], [purity.analyse_args], assumptions=[ALIAS])
prop("C34", [], [purity.analyse_shared], assumptions=[ALIAS])
prop("C02", ["c02", "c21:dpc_fit"], [stream.analyse], assumptions=[ARRAYS, "the state is handed over between two calls with the same settings"])
prop("C35", [], [resource.analyse], assumptions=["a with statement releases what it manages"])
