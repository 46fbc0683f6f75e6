"""What the analysis needs to know of lmfit.Model: hints are kept per parameter
(without the model's prefix) and merged key by key."""


class Model(object):
    def __init__(self, func, independent_vars=None, param_names=None, nan_policy="raise", prefix="", name=None, **kws):
        self.func = func
        self.prefix = prefix
        self.param_hints = {}

    def set_param_hint(self, name, **kwargs):
        for k in kwargs:
            self.param_hints[name.__strip_prefix__(self.prefix) + "." + k] = kwargs[k]
