"""Shared helpers for the drivers: number encoding and event recording.

Drivers use only the public API of the code under test.  Every value that goes
into a trace is a string: exact rationals for numbers ("n" or "n/d", "inf",
"-inf", "nan"), or a tag.  Anything that is not a number where the trace wants
one becomes "nan", which no clause of the specification accepts.
"""
import math
import numbers
import os
import sys
from decimal import Decimal
from fractions import Fraction

HP = None  # the high-precision number type in use, if any
JITTER = None  # a generator of small random factors for amounts, if any
REPO = os.environ.get("VF_REPO", "/repo")


def setup_path():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


class Typed(str):
    """ An encoded number that knows which type it had. """
    ty = "none"


def enc(x):
    """Exact rational string of a number."""
    if HP is None:
        return enc_(x)
    s = Typed(enc_(x))
    s.ty = ("int" if isinstance(x, int) and not isinstance(x, bool) else "ord" if isinstance(x, float)
            else "dec" if isinstance(x, HP) else type(x).__name__)
    return s


def enc_(x):
    if isinstance(x, bool):
        return "nan"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        x = Fraction(x)
    elif isinstance(x, Decimal):
        if x.is_nan():
            return "nan"
        if x.is_infinite():
            return "inf" if x > 0 else "-inf"
        x = Fraction(x)
    elif isinstance(x, Fraction):
        pass
    else:
        try:
            import numpy
            if isinstance(x, numpy.generic):
                return enc_(x.item())
        except Exception:
            pass
        return "nan"
    return str(x.numerator) if x.denominator == 1 else "%d/%d" % (x.numerator, x.denominator)


def frac(s):
    """Fraction of an encoded number."""
    return Fraction(s)


def dec(s):
    """Float (or int, or inf) of an encoded number (or the same in high precision)."""
    if HP is not None:
        if s in ("inf", "-inf"):
            return HP(s)
        f = Fraction(s)
        return HP(f.numerator) / HP(f.denominator)
    if s in ("inf", "-inf"):
        return float(s)
    f = Fraction(s)
    if JITTER is not None and abs(f) >= 2:
        return float(f) * (1 + JITTER.random() * 1e-10)
    return int(f) if f.denominator == 1 else float(f)


def decf(s):
    if HP is not None:
        return dec(s) if s != "nan" else HP(s)
    return float(s) if s in ("inf", "-inf", "nan") else float(Fraction(s))


def encmap(d):
    """{number: number} to {string: string}; 'nan' entries for non-numbers."""
    try:
        items = list(d.items())
    except Exception:
        return {"nan": "nan"}
    return {enc(k): enc(v) for k, v in items}


def decmap(d):
    return {dec(k): dec(v) for k, v in d.items()}


def exc(e):
    """Tag for an exception."""
    return "EXC:" + type(e).__name__


def attempt(f, *a, **k):
    """(value, tag): tag is 'ok' or the exception's tag."""
    try:
        return f(*a, **k), "ok"
    except TimeoutError:
        raise
    except Exception as e:  # the code under test may raise anything
        return None, exc(e)


def canon(v):
    """A canonical string of any value, for equality comparison in traces."""
    if isinstance(v, (bool, type(None), str)):
        return repr(v)
    e = enc(v)
    if e != "nan":
        return e
    if isinstance(v, float):
        return "nan"
    if isinstance(v, dict):
        try:
            return "{" + ",".join(sorted(canon(k) + ":" + canon(v[k]) for k in v)) + "}"
        except Exception as e:
            return exc(e)
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, (set, frozenset)):
        return "<" + ",".join(sorted(canon(x) for x in v)) + ">"
    if hasattr(v, "isoformat"):
        return v.isoformat()
    return type(v).__name__


class HighPrecision:
    """ Stands for a class or function of the code under test, and hands it the high-precision type in use. """

    def __init__(self, c):
        self.__dict__["_c"] = c

    def __call__(self, *a, **k):
        k.setdefault("high_precision", HP)
        return self._c(*a, **k)

    def __getattr__(self, n):
        return getattr(self._c, n)

    def __instancecheck__(self, x):
        return isinstance(x, self._c)

    def __subclasscheck__(self, x):
        return issubclass(x, self._c)


def real(cls):
    return cls._c if isinstance(cls, HighPrecision) else cls


def derive(cls, d):
    """ A subclass of `cls` with the attributes `d`. """
    if isinstance(cls, HighPrecision):
        return HighPrecision(derive(cls._c, d))
    return type(cls.__name__, (cls,), d)
