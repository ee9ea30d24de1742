"""Unit algebra against exact exponent arithmetic."""
import itertools

import numpy as np

from mc import unitexpr as ux
from mc.core import check
from mc.env import ALL_UNITS, close, unit
from celest.units.quantity import Quantity

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("every expression tree over the library's units with up to N nested operations "
        "(product and quotient on either side, power, numeric factor on either side, reciprocal) "
        "is built with the real operators and compared with exact exponent arithmetic: size "
        "through a conversion, dimension, unity test, and unchanged operands; an expression is "
        "non-trivial when it is not a bare unit; distinct = distinct (dimension, size) results")
ASSUMPTIONS = ["scalar factors, exponents and leaves come from the alphabets in the sample"]


def evaluate(ctx, expr):
    before = {name: ux.snapshot(unit(name)) for name in leaves_of(expr)}
    record = []
    value = ux.build(expr, record)
    ref = ux.reference(expr)
    dims = ux.dimensions(ref)

    check(ux.parse(value.dimension, ["L", "T", "A", "D"]) == (1.0, dims),
          "dimension of %s is %r, expected %s", expr, value.dimension, dims)
    check(bool(value.is_unity()) == (not ref[1] and close(ref[0], 1.0, 1e-12)),
          "is_unity of %s is %r", expr, value.is_unity())
    target = ux.canonical_unit(dims)
    converted = Quantity(3.0, value).to(target)
    check(close(converted, 3.0 * ux.size(ref), 1e-9),
          "3 %s converts to %r %s, expected %r", expr, converted, target, 3.0 * ux.size(ref))
    back = Quantity(3.0, target).to(value)
    check(close(back, 3.0 / ux.size(ref), 1e-9), "3 %s converts to %r in %s, expected %r",
          target, back, expr, 3.0 / ux.size(ref))
    # Building and using the unit changes neither the operands nor the library's units.
    for name, snap in before.items():
        check(ux.snapshot(unit(name)) == snap, "using %s changed the unit %s", expr, name)
    for sub, part, snap in record:
        check(ux.snapshot(part) == snap, "using %s changed its part %s", expr, sub)
    again = ux.build(expr)
    check(ux.snapshot(again) == record[-1][2], "building %s twice differs", expr)
    ctx.agreed(4)
    ctx.state(repr(expr))
    ctx.saw((sorted(dims.items()), "%.9g" % ux.size(ref)))


FACTORS = {"float64": np.float64, "float32": np.float32, "int64": np.int64, "int8": np.int8,
           "uint16": np.uint16, "0-d": np.array}


def numpy_factor(ctx, expr, kind, side):
    """A numeric factor may be one of numpy's."""
    part, factor = ux.build(expr), FACTORS[kind](4)
    value = factor * part if side == "left" else part * factor
    plain = 4 * part
    what = "%s times %r (%s)" % (expr, factor, side)
    check(value.dimension == plain.dimension, "%s has dimension %s", what, value.dimension)
    check(close(Quantity(3.0, value).to(plain), 3.0, 1e-9), "%s is not four times as much", what)
    check(close(Quantity(3.0, value).to(part), 12.0, 1e-9), "%s is not four times as much", what)
    ctx.agreed(3)
    ctx.saw(what)


def leaves_of(expr):
    if isinstance(expr, str):
        return {expr}
    return set().union(*[leaves_of(e) for e in expr[1:] if isinstance(e, (str, list, tuple))])


OPERATIONS = {"u*x": lambda a, x: a * x, "x*u": lambda a, x: x * a, "u/x": lambda a, x: a / x,
              "x/u": lambda a, x: x / a, "u**x": lambda a, x: a ** x}
FOREIGN = {"str": "2", "none": None, "list": [2], "dict": {}}


def rejects(ctx, expr, operation, kind):
    """No arithmetic with what is neither a unit nor a number."""
    value = ux.build(expr)
    before = ux.snapshot(value)
    other = unit("m") if kind == "unit" else FOREIGN[kind]
    try:
        OPERATIONS[operation](value, other)
    except TypeError:
        check(ux.snapshot(value) == before, "%s of a %s changes %s", operation, kind, expr)
        ctx.saw(("reject", operation, kind))
        return
    check(False, "%s with %s and a %s is accepted", operation, expr, kind)


def explore(ctx):
    exponents = [0, 1, 2, -1, -2, 3, 0.5, -0.5, 1.0]
    scalars = [2, 0.5, 1000, 1, 1e-3]
    ctx.note(leaves=ALL_UNITS, exponents=exponents, scalars=scalars)
    one, _ = ux.expressions(ALL_UNITS, exponents, scalars, 1, ALL_UNITS)
    few = ["m", "km", "s", "hr", "deg", "hourangle", "jd2000"]
    deep = ["m", "km", "s", "min", "deg"]
    two, levels = ux.expressions(few, exponents, scalars, 2, deep)
    sets = [one, two, ux.far(ALL_UNITS, 14 if not ctx.thorough else 60),
            ux.roots(ALL_UNITS)]
    small, small_levels = ux.expressions(["m", "km", "s"], [2, -1, 0.5, 0], [2, 0.5], 2,
                                         ["m", "km", "s"])
    # Products and quotients of two compound units.
    compound = small_levels[1]
    pairs = [[op, a, b] for a in compound for b in compound for op in "*/"]
    sets.append(pairs)
    if ctx.thorough:
        three, _ = ux.expressions(["m", "km", "s"], [0, 2, -1, 0.5], [2], 3, ["m", "km", "s"])
        sets.append(three)
        rich, rl = ux.expressions(["m", "km", "mi", "s", "deg"], exponents, scalars, 1,
                                  ["m", "km", "mi", "s", "deg"])
        sets.append([[op, a, b] for a in rl[1] for b in rl[1] for op in "*/"])
    for expr in one[::37] + ALL_UNITS:
        for case in itertools.product(FACTORS, ("left", "right")):
            ctx.case(numpy_factor, expr, *case)
    for expr in ["m", "km", "deg", ["*", "m", "s"], ["/", "km", "hr"], ["s*", 2, "m"]]:
        for operation, kind in itertools.product(sorted(OPERATIONS), sorted(FOREIGN)):
            ctx.case(rejects, expr, operation, kind)
        ctx.case(rejects, expr, "u**x", "unit")
    seen, todo = set(), []
    for expr in itertools.chain(*sets):
        key = repr(expr)
        if key not in seen:
            seen.add(key)
            todo.append(expr)
    ctx.sample([todo[len(todo) // 3], todo[-1]])
    ctx.note(expressions=len(todo))
    ctx.cases(evaluate, [(e,) for e in todo], chunk=200)
