"""GCRS <-> ITRS against IAU 2006/2000A Earth orientation."""
import itertools

import numpy as np

from mc import geo
from mc.core import check
from mc.env import require_close
from celest import units as u
from celest.coordinates import Coordinate, GCRS, ITRS

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("for every epoch of a calendar-wide grid the rotation between GCRS and ITRS is rebuilt "
        "from the images of the three axes, in both directions, and compared with the IAU "
        "2006/2000A rotation of ERFA; it also has to be rigid, orientation preserving, linear and "
        "independent of the length unit; distinct = distinct epochs whose rotations differ")
ASSUMPTIONS = ["epochs 1800-2200, UT1, UTC and TT taken as one scale, no polar motion (as the "
               "library documents)",
               "0.5 arcsecond for the pole, 4 arcseconds of rotation about it from 1950 to 2100, 8 "
               "before and after"]

ARCSEC = np.radians(1 / 3600)


def images(epochs, source, target, length):
    n = len(epochs)
    result = np.zeros((n, 3, 3))
    for axis in range(3):
        xyz = np.zeros((n, 3))
        xyz[:, axis] = 7000.0
        frame = source(np.array(epochs), *[c.copy() for c in xyz.T], u.km if length == "km"
                       else u.m)
        out = Coordinate(frame).convert_to(target)
        got = np.stack([out.x.to(u.m), out.y.to(u.m), out.z.to(u.m)], axis=-1)
        result[:, :, axis] = got / (7000.0 * (1000 if length == "km" else 1))
    return result


def rotation(ctx, epochs, length):
    expected = geo.celestial_to_terrestrial(np.array(epochs))
    for source, target, reference in ((GCRS, ITRS, expected),
                                      (ITRS, GCRS, expected.transpose(0, 2, 1))):
        got = images(epochs, source, target, length)
        name = "%s -> %s" % (source.__name__, target.__name__)
        gram = np.einsum("kji,kjl->kil", got, got)
        require_close(gram, np.broadcast_to(np.eye(3), gram.shape), name + " is not rigid",
                      rel=0, abs_=1e-9)
        require_close(np.linalg.det(got), np.ones(len(epochs)), name + " determinant", rel=0,
                      abs_=1e-9)
        # d rotates the reference terrestrial frame onto the library's one.
        if source is GCRS:
            d = np.einsum("kij,klj->kil", got, reference)
        else:
            d = np.einsum("kji,kjl->kil", got, reference)
        pole = np.hypot(d[:, 0, 2], d[:, 1, 2]) / ARCSEC
        spin = np.arctan2(d[:, 0, 1] - d[:, 1, 0], d[:, 0, 0] + d[:, 1, 1]) / ARCSEC
        worst = int(np.argmax(pole))
        check(pole[worst] < 0.5, "%s: the pole is off by %.3f arcsec at %r", name,
              pole[worst], epochs[worst])
        check(np.all(d[:, 2, 2] > 0.99), "%s: the pole points the other way", name)
        years = np.array(epochs)
        slack = np.where((years >= 2433282.5) & (years <= 2488069.5), 4.0, 8.0)
        worst = int(np.argmax(np.abs(spin) / slack))
        check(abs(spin[worst]) < slack[worst], "%s: rotated about the pole by %.3f arcsec at %r", name,
              spin[worst], epochs[worst])
        ctx.count_max(worst_pole_arcsec=float(np.max(pole)),
                      worst_spin_arcsec=float(np.max(np.abs(spin))))
        ctx.agreed(len(epochs))
        for e in epochs:
            ctx.saw(e)


def linear(ctx, epoch, index):
    """Any vector is turned by the same rotation as the axes, whatever its size and unit."""
    vectors = np.array(VECTORS)
    matrix = images([epoch], GCRS, ITRS, "km")[0]
    for name, scale in (("km", 1.0), ("m", 1000.0), ("mi", 1000 / 1609.344), ("mm", 1e6)):
        for source, target, m in ((GCRS, ITRS, matrix), (ITRS, GCRS, matrix.T)):
            xyz = vectors[index] * scale
            out = Coordinate(source(np.array([epoch]), *[np.array([c]) for c in xyz],
                                    getattr(u, name))).convert_to(target)
            got = np.array([out.x.to(u.km)[0], out.y.to(u.km)[0], out.z.to(u.km)[0]])
            require_close(got, m @ vectors[index], "%s %s in %s" % (epoch, vectors[index], name),
                          rel=0, abs_=1e-9 * max(1, np.linalg.norm(vectors[index])))
            ctx.agreed()
    # a velocity given in a compound unit is turned the same way
    out = Coordinate(GCRS(np.array([epoch]), *[np.array([c]) for c in vectors[index]],
                          u.km / u.s)).convert_to(ITRS)
    got = np.array([out.x.to(u.m / u.s)[0], out.y.to(u.m / u.s)[0], out.z.to(u.m / u.s)[0]])
    require_close(got, 1000 * (matrix @ vectors[index]), "velocity", rel=0,
                  abs_=1e-6 * max(1, np.linalg.norm(vectors[index])))
    ctx.agreed()


VECTORS = [list(v) for v in itertools.product([-7000.0, 0.0, 42164.0], repeat=3)
           if any(v)] + [[1e-3, 0, 0], [0, 384400.0, 0], [-6378.137, 1.0, -1.0], [1, 2, 3]]


def explore(ctx):
    first, last = 2378496.5, 2524593.5       # 1800-01-01 .. 2200-01-01
    step = 1.0 if ctx.thorough else 7.0
    days = np.arange(first, last, step)
    phases = [0.0, 0.25, 0.5, 0.75, 0.123] if ctx.thorough else [0.0, 0.371]
    epochs = np.concatenate([days + p + (days % 11) * 1e-3 for p in phases])
    epochs = np.concatenate([epochs, [e for e in geo.EPOCHS if first <= e <= last],
                             2451545.0 + np.arange(-48, 49) / 24])
    jobs = [(list(map(float, epochs[i:i + 512])), "km") for i in range(0, len(epochs), 512)]
    jobs += [([float(e)], "m") for e in geo.EPOCHS if first <= e <= last]
    # all of them at once
    jobs.insert(0, (list(map(float, epochs[::1 if len(epochs) < 70000 else 3])), "km"))
    # epochs close together, in either order
    for e in geo.EPOCHS:
        if first <= e <= last - 30:
            near = [float(e) + k for k in range(24)]
            jobs += [(near, "km"), (near[::-1], "km"), ([near[0] + k / 1440 for k in range(60)],
                                                        "km")]
    ctx.note(epochs=len(epochs), vectors=len(VECTORS))
    ctx.sample({"epochs": list(map(float, epochs[:3]))})
    ctx.cases(rotation, jobs, chunk=1)
    ctx.cases(linear, [(e, i) for e in geo.EPOCHS for i in range(len(VECTORS))], chunk=20)
