"""What the checks share about celest: constructors, stand-ins and tolerant comparisons."""
import contextlib
import math

import numpy as np

from mc.core import Violation, check
from celest import units as u
from celest.units.quantity import Quantity

LENGTH = ["m", "mm", "cm", "km", "inch", "ft", "yd", "mi"]
TIME = ["s", "min", "hr", "dy"]
ANGLE = ["deg", "rad", "arcsec", "arcmin", "hourangle"]
DATE = ["jd2000"]
ALL_UNITS = LENGTH + TIME + ANGLE + DATE

DIMENSION = {**{n: "L" for n in LENGTH}, **{n: "T" for n in TIME},
             **{n: "A" for n in ANGLE}, **{n: "D" for n in DATE}}

# Independent table of what one unit is worth (metre, second, degree, Julian day).  The values
# of ft and yd are the ones the library and its tests fix (0.305 and 0.914).
SIZE = {"m": 1.0, "mm": 1e-3, "cm": 1e-2, "km": 1e3, "inch": 0.0254, "ft": 0.305,
        "yd": 0.914, "mi": 1609.344, "s": 1.0, "min": 60.0, "hr": 3600.0, "dy": 86400.0,
        "deg": 1.0, "rad": 180.0 / math.pi, "arcsec": 1 / 3600.0, "arcmin": 1 / 60.0,
        "hourangle": 15.0, "jd2000": 1.0}


def unit(name):
    return getattr(u, name)


def close(a, b, rel=1e-9, abs_=0.0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        ok = np.abs(a - b) <= abs_ + rel * np.maximum(np.abs(a), np.abs(b))
    ok |= (a == b)
    return bool(np.all(ok))


def require_close(actual, expected, what, rel=1e-9, abs_=0.0, labels=None):
    a, b = np.asarray(actual, dtype=float), np.asarray(expected, dtype=float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s instead of %s" % (what, a.shape, b.shape))
    with np.errstate(invalid="ignore"):
        bad = ~(np.abs(a - b) <= abs_ + rel * np.maximum(np.abs(a), np.abs(b)))
    bad &= ~(a == b)
    if np.any(bad):
        i = tuple(int(k[0]) for k in np.nonzero(np.atleast_1d(bad)))
        av, bv = np.atleast_1d(a)[i], np.atleast_1d(b)[i]
        label = "" if labels is None else " for %s" % (labels[i[0]],)
        raise Violation("%s: got %r, expected %r (index %s)%s" % (what, float(av), float(bv),
                                                                  i, label))
    return a.size


def angle_difference(a, b, period=360.0):
    d = (np.asarray(a, float) - np.asarray(b, float) + period / 2) % period - period / 2
    return d


def same_place(a, b):
    return (a.latitude.to(u.deg) == b.latitude.to(u.deg)
            and a.longitude.to(u.deg) == b.longitude.to(u.deg)
            and a.height.to(u.km) == b.height.to(u.km))


def raises(kinds, fn, *args, **kw):
    """True when the call raises one of `kinds`; other exceptions propagate."""
    try:
        fn(*args, **kw)
    except kinds:
        return True
    return False


@contextlib.contextmanager
def sun_at(direction_of):
    """Replace the (absent) ephemeris file by a stand-in Sun.

    `direction_of(julian array)` returns the (3, n) GCRS position of the Sun in km.
    """
    from jplephem import spk

    class Segment:
        def __init__(self, fn, kernel):
            self.fn, self.kernel = fn, kernel

        def compute(self, tdb, tdb2=0.0):
            if self.kernel.closed:
                raise ValueError("the ephemeris file is closed")
            return self.fn(np.asarray(tdb, dtype=float) + tdb2)

        def compute_and_differentiate(self, tdb, tdb2=0.0):
            raise AssertionError("not modelled")

    def earth_barycentre(julian):
        return np.stack([1.2e8 + 0 * julian, -3.4e7 + 0 * julian, 5.6e6 + 0 * julian])

    def earth(julian):
        return np.stack([1.1e3 + 0 * julian, 2.2e3 + 0 * julian, -3.3e3 + 0 * julian])

    class Kernel:
        closed = False

        def __getitem__(self, key):
            return {
                (0, 10): Segment(lambda j: np.asarray(direction_of(j), float)
                                 + earth_barycentre(j) + earth(j), self),
                (0, 3): Segment(earth_barycentre, self),
                (3, 399): Segment(earth, self),
            }[key]

        def close(self):
            self.closed = True

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            self.close()

    saved = spk.SPK.__dict__.get("open"), spk.SPK.__dict__.get("close")
    spk.SPK.open = classmethod(lambda cls, path: Kernel())
    spk.SPK.close = lambda self: self.close()
    try:
        yield
    finally:
        spk.SPK.open, spk.SPK.close = saved
