"""Quantity arithmetic and comparisons: every operation sequence up to a depth."""
import itertools
import operator

import numpy as np

from mc import unitexpr as ux
from mc.core import check
from mc.env import close, require_close
from celest.units.quantity import Quantity

PROPERTY = "C04"
LEVEL = "model_checking"
RULE = ("states are the Quantities reached by operation sequences; transitions are the operators "
        "+ - * / (either side), negation and the six comparisons with every operand of the "
        "alphabet; the reference model holds the value in SI units and the exact exponents; every "
        "sequence up to the depth bound is executed from every start; and all pairs of infinities, "
        "zeros and values that are no numbers")
ASSUMPTIONS = ["values come from the alphabet OPERANDS; relative tolerance 1e-9; comparisons are "
               "made between values that are equal exactly or differ by more than rounding"]

# name -> (data, unit expression)
OPERANDS = {
    "5m": (5, "m"), "0.1km": (0.1, "km"), "-2km": (-2.0, "km"), "2s": (2, "s"),
    "3min": (3.0, "min"), "4km/hr": (4.0, ["/", "km", "hr"]), "90deg": (90.0, "deg"),
    "1rad": (1.0, "rad"), "3m2": (3.0, ["*", "m", "m"]), "7 s m": (7.0, ["*", "s", "m"]),
    "2/s": (2.0, ["1/", "s"]), "jd": (2451545.5, "jd2000"),
    "[1,2,4]m": ([1.0, 2.0, 4.0], "m"), "[1,-2,3]cm": ([1, -2, 3], "cm"),
    "[60,30,15]s": ([60.0, 30.0, 15.0], "s"),
}
NUMBERS = [2, -0.5, 3.0]
BINARY = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv}


def make(name):
    data, expr = OPERANDS[name]
    data = np.array(data) if isinstance(data, list) else data
    return Quantity(data, ux.build(expr))


class Model:
    """SI value, exact exponents, and the unit a sum would be expressed in."""

    def __init__(self, value, dims, magnitude=None):
        self.value, self.dims = np.asarray(value, dtype=float), dims
        # size of the numbers the value was computed from: rounding is relative to it
        self.magnitude = float(np.max(np.abs(self.value))) if magnitude is None else magnitude

    def cancelled(self):
        return bool(np.min(np.abs(self.value)) <= 1e-6 * self.magnitude)


def model(name):
    data, expr = OPERANDS[name]
    ref = ux.reference(expr)
    return Model(np.asarray(data, dtype=float) * ux.size(ref), ux.dimensions(ref))


def unit_size(unit):
    """Size of a unit of the library, read from its printed form only."""
    return ux.size(ux.parse(str(unit)))


def combine(op, a, b):
    dims = dict(a.dims)
    for d, p in b.dims.items():
        dims[d] = dims.get(d, 0) + (p if op == "*" else -p)
    if op == "*":
        value, magnitude = a.value * b.value, a.magnitude * b.magnitude
    else:
        value = a.value / b.value
        magnitude = a.magnitude / float(np.min(np.abs(b.value)))
    return Model(value, {d: p for d, p in dims.items() if p}, magnitude)


def total(op, a, b):
    return Model(BINARY[op](a.value, b.value), a.dims, max(a.magnitude, b.magnitude))


def require(quantity, ref, what):
    check(isinstance(quantity, Quantity), "%s is not a Quantity", what)
    check(ux.parse(quantity.dimension, "LTAD") == (1.0, ref.dims),
          "%s has dimension %r, expected %s", what, quantity.dimension, ref.dims)
    value = np.asarray(quantity.to(ux.canonical_unit(ref.dims)), dtype=float)
    require_close(value, ref.value, what, rel=1e-9,
                  abs_=1e-9 * ref.magnitude)
    direct = np.asarray(quantity.data, dtype=float) * unit_size(quantity.unit)
    require_close(direct, ref.value, what + " (by its unit)", rel=1e-9,
                  abs_=1e-9 * ref.magnitude)


def sequence(ctx, start, steps):
    quantity, ref = make(start), model(start)
    trail = start
    met = [(quantity, np.array(quantity.data, copy=True), str(quantity.unit))]
    for step in steps:
        kind, op, operand = step
        trail += " %s %s %s" % (kind, op, operand)
        if kind == "neg":
            quantity, ref = -quantity, Model(-ref.value, ref.dims, ref.magnitude)
        elif kind in ("num", "rnum"):
            # A plain number is taken in the unit of the Quantity for sums.
            size = unit_size(quantity.unit)
            if op in "+-":
                other = Model(operand * size, ref.dims)
                new = total(op, other, ref) if kind == "rnum" else total(op, ref, other)
            else:
                if kind == "rnum" and op == "/" and ref.cancelled():
                    return          # division by (nearly) zero
                other = Model(operand, {})
                new = combine(op, other, ref) if kind == "rnum" else combine(op, ref, other)
            unit = str(quantity.unit)
            got = (BINARY[op](operand, quantity) if kind == "rnum"
                   else BINARY[op](quantity, operand))
            if not (kind == "rnum" and op == "/"):
                check(str(got.unit) == unit, "%s changed the unit to %s", trail, got.unit)
            quantity, ref = got, new
        else:
            other, oref = make(operand), model(operand)
            snap = (np.array(other.data, copy=True), str(other.unit))
            left, right = (other, quantity) if kind == "rq" else (quantity, other)
            lref, rref = (oref, ref) if kind == "rq" else (ref, oref)
            if op in "+-" and ref.dims != oref.dims:
                try:
                    BINARY[op](left, right)
                except ArithmeticError:
                    ctx.saw(("dimension mismatch", op))
                else:
                    check(False, "%s is accepted", trail)
                for symbol, compare in (("==", operator.eq), ("!=", operator.ne),
                                        ("<", operator.lt), ("<=", operator.le),
                                        (">", operator.gt), (">=", operator.ge)):
                    try:
                        compare(left, right)
                    except ArithmeticError:
                        continue
                    check(False, "%s compares %s", trail, symbol)
            else:
                if op in "+-":
                    new = total(op, lref, rref)
                else:
                    if op == "/" and rref.cancelled():
                        return      # division by (nearly) zero
                    new = combine(op, lref, rref)
                got = BINARY[op](left, right)
                if op in "+-":
                    check(str(got.unit) == str(left.unit), "%s is expressed in %s", trail,
                          got.unit)
                    compare_all(ctx, left, right, lref, rref, trail)
                quantity, ref = got, new
            check(np.array_equal(other.data, snap[0]) and str(other.unit) == snap[1],
                  "%s changed its operand", trail)
        require(quantity, ref, trail)
        met.append((quantity, np.array(quantity.data, copy=True), str(quantity.unit)))
        ctx.step()
        ctx.agreed()
        ctx.state((sorted(ref.dims.items()), ref.value.tolist(), str(quantity.unit)))
    for q, data, unit in met:
        check(np.array_equal(q.data, data) and str(q.unit) == unit, "%s changed an operand",
              trail)
    ctx.saw((sorted(ref.dims.items()), ["%.6g" % v for v in np.ravel(ref.value)]))


def compare_all(ctx, left, right, lref, rref, trail):
    a, b = np.broadcast_arrays(lref.value, rref.value)
    scale = max(lref.magnitude, rref.magnitude)
    near = np.abs(a - b) <= 1e-9 * scale
    exact = near & (np.abs(a - b) == 0)
    if np.any(near & ~exact):
        return      # closer than rounding can tell
    if np.any(near):
        # equal in the reference: only demand agreement of the six answers with each other
        eq = np.asarray(left == right)
        check(np.array_equal(np.asarray(left != right), ~eq), "%s: == and != agree", trail)
        check(np.array_equal(np.asarray(left <= right), np.asarray(left < right) | eq),
              "%s: <= is not < or ==", trail)
        check(np.array_equal(np.asarray(left >= right), np.asarray(left > right) | eq),
              "%s: >= is not > or ==", trail)
        return
    for symbol, compare in (("==", operator.eq), ("!=", operator.ne), ("<", operator.lt),
                            ("<=", operator.le), (">", operator.gt), (">=", operator.ge)):
        got = compare(left, right)
        check(np.array_equal(np.asarray(got), compare(a, b)),
              "%s: comparison %s gives %r", trail, symbol, got)
    ctx.agreed(6)


KINDS = {"float64": np.float64, "float32": np.float32, "float16": np.float16, "int64": np.int64,
         "int32": np.int32, "int8": np.int8, "uint8": np.uint8, "uint64": np.uint64,
         "0-d": np.array, "bool": lambda n: n == 3}


def numpy_number(ctx, start, op, side, kind):
    """A number of numpy's counts as the plain number it is."""
    quantity = make(start)
    plain = 1 if kind == "bool" else 3
    number = KINDS[kind](3)
    if side == "left":
        got, want = BINARY[op](number, quantity), BINARY[op](plain, quantity)
    else:
        got, want = BINARY[op](quantity, number), BINARY[op](quantity, plain)
    what = "%s %s %r (%s)" % (start, op, number, side)
    check(isinstance(got, Quantity), "%s is a %s", what, type(got).__name__)
    check(str(got.unit) == str(want.unit), "%s is in %s", what, got.unit)
    require_close(got.data, want.data, what, rel=1e-3 if kind == "float16" else 1e-6 if kind == "float32" else 1e-12)
    ctx.agreed()
    ctx.saw((what, str(got.unit)))


# Pairs that denote the same value, exactly representable on both sides.
EQUAL = [((1000.0, "m"), (1.0, "km")), ((1, "hr"), (60, "min")), ((3600, "s"), (1, "hr")),
         ((2, "dy"), (48, "hr")), ((-5000.0, "m"), (-5, "km")), ((0, "m"), (0.0, "mi")),
         ((15.0, "deg"), (1.0, "hourangle")), ((7, "jd2000"), (7.0, "jd2000")),
         ((3.5, "ft"), (3.5, "ft")), ((2.0, ["/", "m", "s"]), (2, ["/", "m", "s"])),
         ((5.0, ["*", "m", "s"]), (5.0, ["*", "s", "m"])),
         (([0, 1000.0], "m"), ([0.0, 1.0], "km")), ((1, ["/", "m", "m"]), (1, ["/", "s", "s"]))]


def equal_pair(ctx, index, swap, bump):
    pair = [Quantity(np.array(d) if isinstance(d, list) else d, ux.build(e))
            for d, e in EQUAL[index]]
    left, right = pair[::-1] if swap else pair
    if bump:
        right = right + bump
    a, b = 0, bump
    for symbol, compare in (("==", operator.eq), ("!=", operator.ne), ("<", operator.lt),
                            ("<=", operator.le), (">", operator.gt), (">=", operator.ge)):
        got = np.asarray(compare(left, right))
        check(bool(np.all(got == compare(a, b))), "%r %s %r is %s", left, symbol, right, got)
    ctx.agreed(6)
    ctx.step(6)
    ctx.saw(("equal", bump))


SPECIAL = [float("nan"), float("inf"), float("-inf"), 0.0, -0.0, 1.0, -3.0]
COMPARE = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
           ">": operator.gt, ">=": operator.ge}


def special(ctx, left, right, first, second, form):
    """Values that are no numbers, infinite or zeros of either sign behave as floats do."""
    ratio = ux.size(ux.reference(second)) / ux.size(ux.reference(first))
    hold = {"scalar": float, "array": lambda v: np.array([v, 2.0, v]),
            "mixed": lambda v: np.array([v, 2.0, v])}
    a = hold[form](left)
    b = hold["scalar" if form == "mixed" else form](right)
    one, other = Quantity(a, ux.build(first)), Quantity(b, ux.build(second))
    same = np.asarray(b, dtype=float) * ratio
    # infinities, zeros and values that are no numbers are what they are in every unit
    for symbol, compare in COMPARE.items():
        close_pairs = np.isfinite(a) & np.isfinite(same) & (np.abs(a - same) < 1e-9) & (same != 0)
        got, wanted = np.asarray(compare(one, other)), np.asarray(compare(np.asarray(a), same))
        check(np.shape(got) == np.shape(wanted) and np.all((got == wanted) | close_pairs),
              "%r %s %r is %s", one, symbol, other, got)
    with np.errstate(all="ignore"):
        for symbol in "+-":
            got = np.asarray(BINARY[symbol](one, other).data, dtype=float)
            wanted = np.asarray(BINARY[symbol](np.asarray(a), same))
            check(np.array_equal(np.isnan(got), np.isnan(wanted)), "%r %s %r is %s", one, symbol,
                  other, got)
            require_close(np.nan_to_num(got, nan=0.5), np.nan_to_num(wanted, nan=0.5),
                          "%r %s %r" % (one, symbol, other))
        check(np.array_equal(np.asarray((-one).data), -np.asarray(a), equal_nan=True), "-%r", one)
    ctx.step(9)
    ctx.agreed(9)
    ctx.saw(("special", str(left), str(right), first, second, form))


def foreign(ctx, name, kind):
    quantity = make(name)
    other = {"str": "5", "none": None, "list": [1], "object": object()}[kind]
    for op in BINARY.values():
        for args in ((quantity, other), (other, quantity)):
            try:
                op(*args)
            except TypeError:
                continue
            check(False, "%s combines with %r", name, other)
    check((quantity == other) is False or not np.any(quantity == other),
          "%s equals %r", name, other)
    check(bool(np.all(quantity != other)), "%s does not differ from %r", name, other)
    for compare in (operator.lt, operator.le, operator.gt, operator.ge):
        try:
            compare(quantity, other)
        except TypeError:
            continue
        check(False, "%s is ordered with %r", name, other)
    ctx.step(14)
    ctx.saw(("foreign", kind))


def explore(ctx):
    steps = [("neg", "-", None)]
    steps += [(k, op, n) for k in ("num", "rnum") for op in BINARY for n in NUMBERS]
    full = steps + [(k, op, o) for k in ("q", "rq") for op in BINARY for o in OPERANDS]
    short = [("neg", "-", None), ("num", "+", 2), ("rnum", "-", 3.0), ("num", "*", -0.5),
             ("rnum", "/", 2)]
    short += [(k, op, o) for k in ("q", "rq") for op in BINARY
              for o in ("0.1km", "2s", "4km/hr", "[1,-2,3]cm")]
    jobs = []
    for start in OPERANDS:
        for s in full:
            jobs.append((start, [s]))
        for pair in itertools.product(full, short if not ctx.thorough else full):
            jobs.append((start, list(pair)))
    if ctx.thorough:
        for start in ("5m", "-2km", "4km/hr", "[1,2,4]m"):
            for triple in itertools.product(short, repeat=3):
                jobs.append((start, list(triple)))
    for i in range(len(EQUAL)):
        for swap in (False, True):
            for bump in (0, 1, -1):
                ctx.case(equal_pair, i, swap, bump)
    for name in OPERANDS:
        for kind in ("str", "none", "list", "object"):
            ctx.case(foreign, name, kind)
    for case in itertools.product(OPERANDS, BINARY, ("left", "right"), KINDS):
        ctx.case(numpy_number, *case)
    for left in SPECIAL:
        for right in SPECIAL:
            for first, second in (("m", "m"), ("m", "km"), ("hr", "s"), ("rad", "deg")):
                for form in ("scalar", "array", "mixed"):
                    ctx.case(special, left, right, first, second, form)
    ctx.note(operands=sorted(OPERANDS), operations=len(full), sequences=len(jobs))
    ctx.sample(jobs[len(jobs) // 2])
    ctx.cases(sequence, jobs, chunk=300)
