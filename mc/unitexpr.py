"""Expression trees over units, their evaluation by celest and by an exact reference."""
import re
from fractions import Fraction

from mc.core import HarnessError
from mc.env import DIMENSION, SIZE, ALL_UNITS, unit

# Expressions are JSON: "m" | ["*",a,b] | ["/",a,b] | ["**",a,p] | ["s*",k,a] | ["*s",a,k]
# | ["1/",a]


def build(expr, record=None):
    """Evaluate with the library; `record` collects every intermediate object as it was made."""
    if isinstance(expr, str):
        value = unit(expr)
    elif expr[0] == "*":
        value = build(expr[1], record) * build(expr[2], record)
    elif expr[0] == "/":
        value = build(expr[1], record) / build(expr[2], record)
    elif expr[0] == "**":
        value = build(expr[1], record) ** expr[2]
    elif expr[0] == "s*":
        value = expr[1] * build(expr[2], record)
    elif expr[0] == "*s":
        value = build(expr[1], record) * expr[2]
    elif expr[0] == "1/":
        value = 1 / build(expr[1], record)
    else:
        raise HarnessError(expr)
    if record is not None:
        record.append((expr, value, snapshot(value)))
    return value


def reference(expr):
    """(numeric prefix, {unit name: power}) by ordinary algebra."""
    if isinstance(expr, str):
        return 1.0, {expr: Fraction(1)}
    if expr[0] in "*/":
        (s1, p1), (s2, p2) = reference(expr[1]), reference(expr[2])
        sign = 1 if expr[0] == "*" else -1
        powers = dict(p1)
        for name, power in p2.items():
            powers[name] = powers.get(name, Fraction(0)) + sign * power
        return s1 * s2 ** sign, {n: p for n, p in powers.items() if p}
    if expr[0] == "**":
        s, p = reference(expr[1])
        q = Fraction(expr[2]).limit_denominator(1000)
        return s ** float(q), {n: k * q for n, k in p.items() if k * q}
    if expr[0] == "s*":
        s, p = reference(expr[2])
        return s * expr[1], p
    if expr[0] == "*s":
        s, p = reference(expr[1])
        return s * expr[2], p
    if expr[0] == "1/":
        s, p = reference(expr[1])
        return 1 / s, {n: -k for n, k in p.items()}
    raise HarnessError(expr)


def size(ref):
    value = ref[0]
    for name, power in ref[1].items():
        value *= SIZE[name] ** float(power)
    return value


def dimensions(ref):
    result = {}
    for name, power in ref[1].items():
        d = DIMENSION[name]
        result[d] = result.get(d, Fraction(0)) + power
    return {d: p for d, p in result.items() if p}


_NAMES = sorted(ALL_UNITS, key=len, reverse=True)
_NUMBER = re.compile(r"[-+]?(\d+\.?\d*([eE][-+]?\d+)?|\.\d+|inf|nan)$")


def _tokens(text, names):
    """[(name, power)], numeric factor of a blank separated list of `name[power]`."""
    factor, found = 1.0, []
    for token in text.split():
        if _NUMBER.match(token):
            factor *= float(token)
            continue
        for name in names:
            rest = token[len(name):]
            if token.startswith(name) and (rest == "" or _NUMBER.match(rest)):
                found.append((name, Fraction(rest or "1").limit_denominator(1000)))
                break
        else:
            raise ValueError("unreadable unit token %r in %r" % (token, text))
    return factor, found


def parse(text, names=None):
    """Read a printed unit back: (numeric prefix, {name: power})."""
    names = names or _NAMES
    numerator, slash, denominator = text.partition("/")
    factor, up = _tokens(numerator, names)
    powers = {}
    for name, power in up:
        powers[name] = powers.get(name, Fraction(0)) + power
    if slash:
        below, down = _tokens(denominator, names)
        factor /= below
        for name, power in down:
            powers[name] = powers.get(name, Fraction(0)) - power
    return factor, {n: p for n, p in powers.items() if p}


def canonical_unit(dims):
    """A unit of the library with the given dimensions, made of m, s, deg and jd2000."""
    base = {"L": "m", "T": "s", "A": "deg", "D": "jd2000"}
    result = None
    for d in sorted(dims):
        power = dims[d]
        power = int(power) if power.denominator == 1 else float(power)
        term = unit(base[d]) ** power
        result = term if result is None else result * term
    return result if result is not None else unit("m") / unit("m")


def snapshot(value):
    return (str(value), value.dimension, float(value.scale), [b.short_name for b in value.bases],
            [float(p) for p in value.powers], bool(value.is_unity()))


def expressions(leaves, exponents, scalars, depth, deep_leaves):
    """All expressions up to `depth` operations nested, simplest first.

    The second operand of the deepest binary operations ranges over `deep_leaves`.
    """
    levels = [list(leaves)]
    everything = list(leaves)
    for level in range(1, depth + 1):
        new = []
        below = levels[-1]
        seconds = leaves if level == 1 else deep_leaves
        for a in below:
            for b in seconds:
                new.append(["*", a, b])
                new.append(["/", a, b])
                if not isinstance(a, str):
                    new.append(["*", b, a])
                    new.append(["/", b, a])
            for p in exponents:
                new.append(["**", a, p])
            for s in scalars:
                new.append(["s*", s, a])
                new.append(["*s", a, s])
            new.append(["1/", a])
        levels.append(new)
        everything += new
    return everything, levels


def far(leaves, longest):
    """Large and odd powers and factors, and long chains of operations."""
    compound = [["/", "km", "hr"], ["*", "m", "s"], ["s*", 2, "m"], ["*", ["*", "m", "s"], "deg"],
                ["/", ["/", "mi", "s"], "s"], ["1/", "min"], ["*s", ["**", "cm", 2], 0.25],
                ["*", "jd2000", ["**", "ft", -3]]]
    found = []
    for a in list(leaves) + compound:
        for p in (4, 5, 7, 10, -4, -10, 12, -12, 0.25, 1.5, -2.5, 11):
            found += [["**", a, p], ["*", a, ["**", "yd", p]], ["/", "rad", ["**", a, p]],
                      ["**", ["**", a, p], 2], ["/", ["**", a, p], ["**", a, p + 1]]]
        for k in (7, 10, 16, 12, 100, 1e6, 1e12, 3.7, 12345.678, 1e-9, 0.1, 1 / 3, 1 + 5e-7,
                  1 - 1e-6, 1.0001, 0.999):
            found += [["s*", k, a], ["*s", ["*", a, "m"], k], ["**", ["s*", k, a], 2],
                      ["/", "km", ["s*", k, a]], ["*s", ["s*", k, a], 3]]
    for start in range(len(leaves)):
        for stride in (1, 2, 3, 5, 7):
            expr = leaves[start]
            for k in range(1, longest):
                name = leaves[(start + k * stride + k // 5) % len(leaves)]
                step = (k * stride + start) % 7
                expr = (["*", expr, name], ["/", expr, name], ["/", name, expr],
                        ["*", name, expr], ["s*", 2, expr], ["1/", expr],
                        ["*", expr, ["**", name, -2]])[step]
                found.append(expr)
    return found


def roots(leaves):
    """Products and quotients of dyadic fractional powers, which cancel nearly, wholly or not."""
    powers = [0.0625, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1, 1.0625, 1.25, 1.5, 1.75, 2,
              2.5, 3]
    found = []
    for a in leaves:
        for p in powers:
            found += [["**", a, p], ["**", a, -p], ["**", ["**", a, p], 2], ["**", ["**", a, p], 0.5],
                      ["**", ["*", a, "s"], p], ["**", ["/", "km", a], -p],
                      ["**", ["s*", 4, ["**", a, 2]], p]]
            for q in powers:
                found += [["*", ["**", a, p], ["**", a, -q]], ["/", ["**", a, p], ["**", a, q]]]
    for a, b in (("m", "km"), ("s", "hr"), ("deg", "rad"), ("ft", "mi"), ("m", "s")):
        for p in powers:
            for q in powers[::3]:
                pair = ["*", ["**", a, p], ["**", b, -q]]
                found += [pair, ["/", pair, ["**", a, q]], ["*", pair, ["**", b, p]]]
    return found
