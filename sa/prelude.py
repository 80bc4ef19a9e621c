"""Memoising decorators of the standard library, as the analyser reads them.
This text is only parsed, never run."""


def _memo(f):
    kept = {}

    def _f(*args, **kw):
        if kw:
            return f(*args, **kw)
        try:
            return kept[args]
        except KeyError:
            kept[args] = result = f(*args)
            return result
    return _f


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _memo(maxsize)
    return _memo


def cache(f):
    return _memo(f)


def cached_property(f):
    kept = {}

    def _f(self):
        try:
            return kept[id(self)]
        except KeyError:
            kept[id(self)] = result = f(self)
            return result
    return property(_f)
