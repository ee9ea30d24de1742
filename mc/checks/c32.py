"""Results depend on the numbers in the caller's arrays, not on how they are stored."""
import itertools
import mmap

import numpy as np

from mc import ops
from mc.core import check
from mc.env import ANGLE, LENGTH, TIME, require_close, unit
from celest.units.quantity import Quantity

PROPERTY = "C32"
LEVEL = "exploration"
RULE = ("every array operation of the library is given the same numbers in every way an array can "
        "hold them (strided, reversed, read-only, big-endian, a memory map, a view of a matrix, a "
        "subclass of ndarray; whole numbers also as signed and unsigned integers of several widths), "
        "for every batch of a pool up to a length bound, and every conversion and mixed sum, "
        "difference, quotient and comparison of integers as wide as their type; the result has to be the one for plain arrays and the "
        "storage has to be left as it was; distinct = distinct (operation, storage, batch)")
ASSUMPTIONS = ["agreement to 1e-9 relative"]


class Own(np.ndarray):
    """A user's subclass of ndarray."""


def read_only(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def column(order):
    def store(a):
        matrix = np.full((len(a), 3), 7.0, order=order)
        matrix[:, 1] = a
        return matrix[:, 1]
    return store


def mapped(a):
    if not len(a):
        return a.copy()
    held = np.frombuffer(mmap.mmap(-1, a.nbytes), dtype=a.dtype)
    held[:] = a
    return held


def offset(a):
    """Not aligned to the size of its elements."""
    raw = np.zeros(a.nbytes + 3, dtype=np.uint8)
    held = raw[3:].view(a.dtype) if a.nbytes else a.copy()
    held[:] = a
    return held


STORAGE = {
    "strided": lambda a: np.repeat(a, 2)[::2],
    "reversed": lambda a: a[::-1].copy()[::-1],
    "row major column": column("C"), "column major column": column("F"),
    "read-only": read_only, "big-endian": lambda a: a.astype(">f8"),
    "memory map": mapped, "unaligned": offset, "subclass": lambda a: a.copy().view(Own),
    "masked": np.ma.array,
    "one element broadcast": lambda a: np.broadcast_to(a, a.shape),
}


def whole(dtype):
    def store(a):
        fits = np.all(a == np.round(a)) and (
            not len(a) or np.iinfo(dtype).min <= a.min() and a.max() <= np.iinfo(dtype).max)
        return a.astype(dtype) if fits else a
    return store


INTEGERS = {"uint8": whole(np.uint8), "uint16": whole(np.uint16), "uint64": whole(np.uint64),
            "int64": whole(np.int64), "int32": whole(np.int32), "int16": whole(np.int16),
            "big-endian int32": lambda a: whole(">i4")(a),
            "strided int64": lambda a: np.repeat(whole(np.int64)(a), 2)[::2],
            "read-only int64": lambda a: read_only(whole(np.int64)(a))}


def plain(a):
    return a


def evaluate(name, index, pool, storing):
    """The result of an operation whose arrays are stored by `storing(number, array)`."""
    make, run = ops.OPS[name]
    kept, number = [], itertools.count()

    def store(array):
        held = storing(next(number), array)
        kept.append((held, np.array(held, dtype=float), held.dtype))
        return held

    pools = ops.POOL[:]
    if pool == "whole":
        ops.POOL[:] = WHOLE
    ops.STORE[0] = store
    try:
        inputs = make(list(index))
        ops.STORE[0] = plain
        result = np.asarray(run(inputs), dtype=float)
    finally:
        ops.STORE[0] = plain
        ops.POOL[:] = pools
    for held, values, dtype in kept:
        check(held.dtype == dtype and np.array_equal(np.asarray(held, dtype=float), values),
              "%s changed the caller's array", name)
    return result, len(kept)


# the pool's samples rounded to whole days, kilometres and degrees
WHOLE = [(float(round(t)), np.round(x), np.round(v), float(round(lon)))
         for t, x, v, lon in ops.POOL]


def storage(ctx, name, index, pool, kind, which):
    """`which` array is stored in another way (-1: all of them)."""
    wanted, count = evaluate(name, index, pool, lambda k, a: a)
    way = {**STORAGE, **INTEGERS}[kind]
    got, _ = evaluate(name, index, pool,
                      lambda k, a: way(a) if which in (-1, k % max(count, 1)) else a)
    require_close(got, wanted, "%s of samples %s in %s arrays (%d)" % (name, index, kind, which),
                  rel=1e-9, abs_=1e-9)
    ctx.agreed(len(index))
    ctx.saw((name, tuple(index), pool, kind, which))


UNITS = [LENGTH, TIME, ANGLE]
EXACT = ["uint8", "uint16", "uint64", "int8", "int16", "int32", "int64", ">i2", ">i4", "float32",
         ">f8"]


def numbers(ctx, first, second, kind):
    """Conversions and mixed operations of whole numbers, as wide as their type allows."""
    a, b = unit(first), unit(second)
    dtype = np.dtype(kind)
    top = np.iinfo(dtype).max if dtype.kind in "iu" else 2 ** 24
    top = min(top, 2 ** 53)
    values = [0, 1, -1, 3, top // 7, -(top // 3), top - 1, -top, top]
    values = [abs(v) for v in values] if dtype.kind == "u" else values
    stored = np.array(values, dtype=dtype)
    wanted = np.array([float(v) for v in values])
    bound = dict(rel=1e-9 if dtype.itemsize > 4 or dtype.kind in "iu" else 1e-6, abs_=1e-300)
    one, other = Quantity(stored, a), Quantity(wanted, a)
    small = Quantity(np.linspace(1.0, 3.0, len(values)), b)
    for what, f in {"to": lambda q: q.to(b), "there and back": lambda q: q.convert_to(b).to(a),
                    "sum": lambda q: (small + q).to(b), "difference": lambda q: (small - q).to(b),
                    "quotient": lambda q: (q / small).data, "less": lambda q: (small < q) * 1.0,
                    "inverse": lambda q: (small / (q + 0.5)).data,
                    "equal": lambda q: (q == small) * 1.0}.items():
        require_close(np.asarray(f(one), dtype=float), np.asarray(f(other), dtype=float),
                      "%s of %s in %s and %s" % (what, kind, first, second), **bound)
    check(one.data is stored and stored.dtype == dtype
          and np.array_equal(np.asarray(stored, dtype=float), wanted), "the array was changed")
    ctx.agreed(8)
    ctx.saw((first, second, kind))


def explore(ctx):
    ctx.cases(numbers, [(a, b, kind) for group in UNITS for a in group for b in group
                        for kind in EXACT], chunk=32)
    jobs = []
    longest = 2 if not ctx.thorough else 3
    batches = [list(b) for n in range(1, longest + 1)
               for b in itertools.product(range(0, len(ops.POOL), 1 if n < 3 else 2), repeat=n)]
    batches += [[0, 1, 2, 3, 4, 5], [5, 5, 2, 2, 0, 1, 3]]
    for name in ops.OPS:
        for pool, ways in (("as made", STORAGE), ("whole", {**STORAGE, **INTEGERS})):
            for kind in ways:
                for k, index in enumerate(batches):
                    if pool == "whole" and kind in STORAGE and k % 7:
                        continue
                    for which in ((-1, 0, 1, 2, 3) if len(index) in (1, 6, 7) else (-1,)):
                        jobs.append((name, index, pool, kind, which))
    ctx.note(operations=len(ops.OPS), storages=len(STORAGE) + len(INTEGERS),
             longest_batch=longest)
    ctx.sample(jobs[77])
    ctx.cases(storage, jobs, chunk=256)
