"""Quantity conversion: chains of conversions over every pair and triple of units."""
import itertools
from fractions import Fraction

import numpy as np

from mc import unitexpr as ux
from mc.core import check
from mc.env import ALL_UNITS, DIMENSION, close, require_close
from celest.units.quantity import Quantity

PROPERTY = "C03"
LEVEL = "model_checking"
RULE = ("states are (unit, data) of a Quantity; transitions are conversions to every unit of the "
        "alphabet; every chain of conversions up to the depth bound is executed from every start "
        "and the value compared with the reference after each step; incompatible conversions have "
        "to raise ValueError and change nothing")
ASSUMPTIONS = ["data values come from the alphabet in DATA; relative tolerance 1e-9"]

COMPOUND = [["/", "km", "hr"], ["/", "m", "s"], ["/", "mi", "min"], ["*", "s", "m"],
            ["*", "m", "s"], ["*", "hr", "ft"], ["/", "deg", "s"], ["/", "rad", "dy"],
            ["/", "arcsec", ["**", "hr", 2]], ["/", "deg", ["*", "s", "min"]],
            ["**", "km", 2], ["*", "m", "cm"], ["**", "m", -2], ["1/", "s"], ["1/", "hr"],
            ["s*", 5, "m"], ["s*", 0.5, ["/", "km", "s"]], ["/", "m", "m"], ["/", "km", "m"],
            ["/", "hourangle", "deg"], ["**", "mi", 0.5], ["**", "m", 0.5],
            ["/", "jd2000", "s"], ["/", "jd2000", "dy"], ["*s", ["/", "m", "km"], 7]]

DATA = {
    "int": lambda: 7,
    "negative": lambda: -3.75,
    "zero": lambda: 0.0,
    "big": lambda: 1.0e12,
    "tiny": lambda: 4.0e-9,
    "bool-free int array": lambda: np.array([0, 1, -2, 400]),
    "float array": lambda: np.array([0.5, -1e6, 3.25e-4]),
    "view": lambda: np.arange(10.0)[::-2],
    "matrix": lambda: np.arange(6.0).reshape(2, 3).T,
    "empty": lambda: np.array([]),
    "float32": lambda: np.array([1.5, -2.0], dtype=np.float32),
    "int32": lambda: np.array([3, 4], dtype=np.int32),
    "read only": lambda: readonly(np.array([1.0, 2.0])),
    "fraction": lambda: Fraction(3, 8),
    "numpy scalar": lambda: np.float64(2.5),
    "nan": lambda: np.array([np.nan, np.inf, -np.inf, 1.0]),
}


def readonly(array):
    array.flags.writeable = False
    return array


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a == b


def chain(ctx, kind, exprs):
    """Convert the data named `kind` along a chain of units."""
    data = DATA[kind]()
    units = [ux.build(e) for e in exprs]
    refs = [ux.reference(e) for e in exprs]
    sizes = [ux.size(r) for r in refs]
    start = quantity = Quantity(data, units[0])
    seen = [(quantity, DATA[kind](), str(units[0]))]
    compatible = True
    for i in range(1, len(units)):
        if ux.dimensions(refs[i]) != ux.dimensions(refs[0]):
            for method in (quantity.to, quantity.convert_to):
                try:
                    method(units[i])
                except ValueError:
                    continue
                check(False, "%s converts to %s", exprs[0], exprs[i])
            compatible = False
            ctx.step()
            ctx.saw(("incompatible",))
            continue
        plain = quantity.to(units[i])
        new = quantity.convert_to(units[i])
        ctx.step(2)
        check(new is not quantity and str(new.unit) == str(units[i]),
              "converting to %s gave the unit %s", exprs[i], new.unit)
        check(np.array_equal(np.asarray(plain, float), np.asarray(new.data, float),
                             equal_nan=True), "to and convert_to differ for %s", exprs)
        expected = np.asarray(DATA[kind](), dtype=float) * (sizes[0] / sizes[i])
        rel = 1e-6 if kind == "float32" else 1e-9
        actual = np.asarray(new.data, dtype=float)
        finite = np.isfinite(expected)
        check(np.array_equal(np.isnan(actual), np.isnan(expected)), "NaN moved")
        require_close(actual[finite] if actual.shape else actual,
                      expected[finite] if expected.shape else expected,
                      "%s converted along %s" % (kind, exprs[:i + 1]), rel=rel)
        if isinstance(data, np.ndarray) and data.size:
            check(not np.shares_memory(np.asarray(new.data), np.asarray(quantity.data))
                  and not np.shares_memory(np.asarray(plain), np.asarray(quantity.data)),
                  "the result of a conversion shares the data of its source")
        quantity = new
        seen.append((quantity, np.array(new.data, copy=True)
                     if isinstance(new.data, np.ndarray) else new.data, str(units[i])))
        ctx.state((kind, exprs[:i + 1][-1]))
        ctx.agreed()
        ctx.saw((kind, "%.9g" % (sizes[0] / sizes[i])))
    # No conversion changed any Quantity met on the way, nor the caller's array.
    for q, snap, name in seen:
        check(same(q.data, snap) and str(q.unit) == name, "a conversion changed its source")
    check(same(data, DATA[kind]()), "a conversion changed the caller's data")
    check(start.unit is units[0], "a conversion changed the unit of its source")


def explore(ctx):
    simple = list(ALL_UNITS)
    everything = simple + COMPOUND
    ctx.note(units=len(everything), data=sorted(DATA))
    jobs = []
    # depth 1: every pair of units, every kind of data
    for a, b in itertools.product(everything, everything):
        for kind in DATA:
            jobs.append((kind, [a, b]))
    # depth 2: every chain through units of one dimension, back to the start
    groups = {}
    for e in everything:
        groups.setdefault(repr(sorted(ux.dimensions(ux.reference(e)).items())), []).append(e)
    kinds = ["int", "negative", "float array"]
    for group in groups.values():
        for a, b, c in itertools.product(group, group, group):
            for kind in kinds:
                jobs.append((kind, [a, b, c, a]))
    # a failing conversion in the middle changes nothing
    for a, b in itertools.product(everything, everything):
        for bad in ("m", "deg"):
            jobs.append(("float array", [a, bad, b, a]))
    if ctx.thorough:
        for group in groups.values():
            for chain4 in itertools.product(group[:8], repeat=4):
                for kind in ("int", "float array"):
                    jobs.append((kind, list(chain4)))
    ctx.sample(jobs[len(jobs) // 2])
    ctx.cases(chain, jobs, chunk=500)
