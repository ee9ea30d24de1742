"""The printed form of a unit denotes that unit."""
import itertools
import re

import numpy as np

from mc import unitexpr as ux
from mc.core import check
from mc.env import ALL_UNITS, close, unit
from celest.units.quantity import Quantity

PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("every expression tree over the library's units up to the depth bound is printed, the "
        "text is read back by an independent parser, and the result has to be the same numeric "
        "prefix and the same power of every unit; the dimension text and the text of Quantities "
        "likewise; distinct = distinct texts")
ASSUMPTIONS = []


def evaluate(ctx, expr):
    value = ux.build(expr)
    factor, powers = ux.reference(expr)
    text = str(value)
    got = ux.parse(text)
    check(got[1] == powers and close(got[0], factor, 1e-9),
          "%s is printed as %r, expected %r %s", expr, text, factor, powers)
    check(text in repr(value), "repr %r does not contain %r", repr(value), text)
    check(ux.parse(value.dimension, ["L", "T", "A", "D"])
          == (1.0, ux.dimensions((factor, powers))),
          "the dimension of %s is printed as %r", expr, value.dimension)
    for data in (3, -2.5, 0):
        shown = str(Quantity(data, value))
        head, _, rest = shown.partition(" ")
        check(float(head) == data and rest == text, "Quantity(%r, %s) is printed as %r",
              data, expr, shown)
    ctx.agreed(5)
    ctx.state(repr(expr))
    ctx.saw(text)


def array_text(ctx, name, values):
    shown = str(Quantity(np.array(values), unit(name)))
    check(shown == str(np.array(values)) + " " + name, "array printed as %r", shown)
    ctx.saw(shown)


def explore(ctx):
    exponents = [0, 1, 2, -1, -2, 3, 0.5]
    scalars = [2, 0.5, 1000, 1, 1e-5]
    one, _ = ux.expressions(ALL_UNITS, exponents, scalars, 1, ALL_UNITS)
    few = ["m", "km", "s", "hr", "deg", "inch", "jd2000"]
    two, _ = ux.expressions(few, exponents, scalars, 2, ["m", "km", "s", "deg"])
    sets = [one, two, ux.far(ALL_UNITS, 14 if not ctx.thorough else 60),
            ux.roots(ALL_UNITS)]
    _, levels = ux.expressions(["m", "km", "s"], [2, -1], [2, 0.5], 1, ["m", "km", "s"])
    sets.append([[op, a, b] for a in levels[1] for b in levels[1] for op in "*/"])
    if ctx.thorough:
        three, _ = ux.expressions(["m", "km", "s"], [2, -1, 0.5], [2], 3, ["m", "s"])
        sets.append(three)
    for name in ALL_UNITS:
        for values in ([1.0], [1, 2, 3], []):
            ctx.case(array_text, name, values)
    seen, todo = set(), []
    for expr in itertools.chain(*sets):
        key = repr(expr)
        if key not in seen:
            seen.add(key)
            todo.append(expr)
    ctx.sample([todo[len(todo) // 3], str(ux.build(todo[len(todo) // 3]))])
    ctx.note(expressions=len(todo))
    ctx.cases(evaluate, [(e,) for e in todo], chunk=200)
