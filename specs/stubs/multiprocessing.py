"""What the analysis needs to know of multiprocessing: a pool computes f(*args)."""


def cpu_count():
    return 8


class Pool(object):
    def __init__(self, processes=None):
        self.open = True

    def apply_async(self, func, args=()):
        return (func(*args),)

    def map(self, func, iterable, chunksize=None):
        return [func(x) for x in iterable]

    def starmap(self, func, iterable, chunksize=None):
        return [func(*x) for x in iterable]

    def terminate(self):
        self.open = False

    def close(self):
        self.open = False

    def join(self):
        self.open = False
