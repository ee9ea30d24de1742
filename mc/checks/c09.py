"""Every sample of a batch is handled as if it were alone."""
import itertools

import numpy as np

from mc import ops
from mc.core import check, pristine_all
from mc.env import require_close

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("for every array operation of the library and every batch that can be made of a pool of "
        "six dissimilar samples up to a length bound (all orders, repetitions, and the empty "
        "batch) row i of the result has to be the result for sample i alone; distinct = distinct "
        "(operation, batch)")
ASSUMPTIONS = ["agreement to 1e-9 relative (1e-7 degrees, 1e-8 km, 1e-6 s absolute)"]


def one(name, i):
    make, run = ops.OPS[name]
    row = np.asarray(run(make([i])), dtype=float)
    check(row.shape[0] == 1, "%s: one sample gave %d rows", name, row.shape[0])
    return row[0]


def prepare(names):
    """The rows of the samples, each computed in a process that did nothing else."""
    missing = [n for n in names if n not in _ALONE]
    jobs = [(n, i) for n in missing for i in range(len(ops.POOL))]
    if jobs:
        rows = pristine_all(one, jobs)
        for n in missing:
            _ALONE[n] = np.array([r for (m, _), r in zip(jobs, rows) if m == n])


def alone(name):
    prepare([name])
    return _ALONE[name]


_ALONE = {}


def batch(ctx, name, index):
    make, run = ops.OPS[name]
    expected = alone(name)[list(index)] if len(index) else alone(name)[:0]
    got = np.asarray(run(make(list(index))), dtype=float)
    check(got.shape[0] == len(index), "%s of %d samples has %d rows", name, len(index),
          got.shape[0])
    if not len(index):
        ctx.saw((name, index))
        return
    check(got.shape == expected.shape, "%s: shape %s instead of %s", name, got.shape,
          expected.shape)
    require_close(got, expected, "%s of %d samples %s" % (name, len(index), list(index)[:12]), rel=1e-10, abs_=1e-7)
    ctx.agreed(len(index))
    ctx.saw((name, tuple(index)))


def tiled(ctx, name, count):
    """A long batch: `count` samples drawn cyclically, in two strides."""
    for stride in (1, 5) if count < 10000 else (5,):
        index = [(i * stride) % len(ops.POOL) for i in range(count)]
        batch(ctx, name, index)


def explore(ctx):
    prepare(list(ops.OPS))
    longest = 5 if ctx.thorough else 3
    jobs = []
    for name in ops.OPS:
        for k in range(0, longest + 1):
            for index in itertools.product(range(len(ops.POOL)), repeat=k):
                jobs.append((name, list(index)))
    ctx.note(operations=len(ops.OPS), pool=len(ops.POOL), longest_batch=longest)
    ctx.sample({"operations": sorted(ops.OPS)})
    ctx.sample(jobs[-1])
    ctx.cases(batch, jobs, chunk=256)
    ctx.cases(tiled, [(n, c) for n in ops.OPS for c in (7, 64, 129, 1001, 4100)], chunk=4)
    # beyond any plausible block size
    ctx.cases(tiled, [(n, 66000 if not ctx.thorough else 300000) for n in ops.OPS], chunk=1)
