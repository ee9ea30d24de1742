"""Coordinate containers accept exactly the well formed data and give it back."""
import itertools

import numpy as np

from mc import unitexpr as ux
from mc.core import check
from mc.env import require_close, same_place, unit
from celest import units as u
from celest.coordinates import (Attitude, AzEl, Coordinate, GCRS, GroundLocation, ITRS, LVLH,
                                WGS84)
from celest.satellite import Satellite

PROPERTY = "C11"
LEVEL = "exploration"
RULE = ("every combination of array shapes (0-d, lengths 0 to 3, 2-d) for the time and coordinate "
        "arrays of every container has to be accepted exactly when all are one dimensional and "
        "equally long, and then the container returns every array unchanged, in its unit and "
        "order; every container is offered to every consumer, which has to accept exactly the "
        "frames it documents; distinct = distinct (container, shapes) or (consumer, frame)")
ASSUMPTIONS = []

SHAPES = {"0d": lambda k: np.array(float(k)), "empty": lambda k: np.array([]),
          "1": lambda k: np.array([k + 0.5]), "2": lambda k: np.array([k + 1.0, -k]),
          "3": lambda k: np.array([3.0 * k, 1.0, -2.0]), "2x1": lambda k: np.full((2, 1), k + 1.0),
          "1x2": lambda k: np.full((1, 2), k + 1.0), "ints": lambda k: np.array([k, k + 1])}
PLACE = (43.6532, -79.3832, 76.0)


def place():
    return GroundLocation(*PLACE, u.deg, u.m)


def make(name, arrays, coordinate_unit, angle="deg"):
    t, rest = arrays[0], arrays[1:]
    if name == "WGS84":
        return WGS84(t, *rest, unit(angle), unit(coordinate_unit))
    if name == "Attitude":
        return Attitude(t, *rest, unit(angle), place())
    if name == "AzEl":
        return AzEl(t, *rest, unit(angle), place())
    return {"GCRS": GCRS, "ITRS": ITRS, "LVLH": LVLH}[name](t, *rest, ux.build(coordinate_unit))


FIELDS = {"GCRS": "xyz", "ITRS": "xyz", "LVLH": "xyz",
          "WGS84": ["latitude", "longitude", "height"], "AzEl": ["azimuth", "elevation"],
          "Attitude": ["roll", "pitch", "yaw"]}


def shapes(ctx, name, kinds):
    arrays = [SHAPES[k](i + 1) for i, k in enumerate(kinds)]
    wanted = all(a.ndim == 1 for a in arrays) and len({a.shape for a in arrays}) == 1
    copies = [a.copy() for a in arrays]
    try:
        frame = make(name, arrays, "km")
    except ValueError:
        check(not wanted, "%s rejects well formed arrays %s", name, kinds)
        ctx.saw((name, kinds, "rejected"))
        ctx.agreed()
        return
    check(wanted, "%s accepts arrays shaped %s", name, kinds)
    ctx.saw((name, kinds, "accepted"))
    for array, copy, field in zip(arrays, copies, ["time"] + list(FIELDS[name])):
        got = getattr(frame, field)
        check(np.array_equal(got.data, copy), "%s.%s is not what was stored", name, field)
        check(np.array_equal(array, copy), "%s changed the caller's %s", name, field)
    ctx.agreed(len(arrays))


def contents(ctx, name, coordinate_unit, angle, n):
    arrays = [np.arange(n) * 0.5 + 10 * k for k in range(len(FIELDS[name]) + 1)]
    frame = make(name, [a.copy() for a in arrays], coordinate_unit, angle)
    check(str(frame.time.unit) == "jd2000", "%s keeps times in %s", name, frame.time.unit)
    angular = {"AzEl": 2, "Attitude": 3, "WGS84": 2}.get(name, 0)
    for k, field in enumerate(FIELDS[name]):
        got = getattr(frame, field)
        wanted = angle if k < angular else str(ux.build(coordinate_unit))
        check(str(got.unit) == wanted, "%s.%s is in %s", name, field, got.unit)
        check(np.array_equal(got.data, arrays[k + 1]), "%s.%s is %s", name, field, got.data)
    check(np.array_equal(frame.time.data, arrays[0]), "%s.time is %s", name, frame.time.data)
    if name in ("AzEl", "Attitude"):
        check(same_place(frame.location, place()), "%s.location is lost", name)
    if name != "WGS84":
        for target in (("deg", "rad", "arcsec") if angular else
                       ("km", "m", "mi") if isinstance(coordinate_unit, str)
                       else (["/", "m", "s"], ["/", "km", "hr"])):
            matrix = frame.to_numpy(ux.build(target))
            source = angle if angular else coordinate_unit
            factor = ux.size(ux.reference(source)) / ux.size(ux.reference(target))
            require_close(matrix, np.stack(arrays[1:], axis=-1) * factor,
                          "%s.to_numpy(%s)" % (name, target))
    ctx.agreed(len(arrays))
    ctx.saw((name, str(coordinate_unit), angle, n))


AWKWARD = [float("nan"), float("inf"), -float("inf"), -0.0, 5e-324, 1e308, -1e308, 1e-9, 0.1]


def awkward(ctx, name, start):
    """What no position holds is returned just as well, bit by bit."""
    arrays = [np.roll(AWKWARD, start + 2 * k) for k in range(len(FIELDS[name]) + 1)]
    frame = make(name, [a.copy() for a in arrays], "km")
    for array, field in zip(arrays, ["time"] + list(FIELDS[name])):
        got = getattr(frame, field).data
        check(got.dtype == array.dtype and got.tobytes() == array.tobytes(),
              "%s.%s is %s and not %s", name, field, got, array)
    if name != "WGS84":
        unit_ = u.deg if name in ("AzEl", "Attitude") else u.km
        check(np.array_equal(frame.to_numpy(unit_), np.stack(arrays[1:], axis=-1),
                             equal_nan=True), "%s.to_numpy is %s", name, frame.to_numpy(unit_))
    ctx.agreed(len(arrays))
    ctx.saw((name, "awkward", start))


def frames():
    t = np.array([2451545.0, 2451545.5])
    a, b, c = np.array([7000.0, 1.0]), np.array([2.0, 7000.0]), np.array([1.0, 3.0])
    return {"GCRS": GCRS(t, a, b, c, u.km), "ITRS": ITRS(t, a, b, c, u.km),
            "LVLH": LVLH(t, a, b, c, u.km), "WGS84": WGS84(t, c, c, c, u.deg, u.km),
            "AzEl": AzEl(t, c, c, u.deg, place()),
            "Attitude": Attitude(t, c, c, c, u.deg, place()),
            "array": a, "none": None, "list": [1, 2, 3], "Quantity": u.Quantity(a, u.km),
            "place": place()}


def consumer(ctx, kind, name):
    offered = frames()
    value = offered[name]
    calls = {
        "Coordinate": (lambda: Coordinate(value), {"GCRS", "ITRS", "WGS84"}),
        "Satellite position": (lambda: Satellite(value), {"GCRS", "ITRS"}),
        "Satellite velocity": (lambda: Satellite(offered["ITRS"], value),
                               {"GCRS", "ITRS", "none"}),
    }
    call, accepted = calls[kind]
    try:
        call()
    except ValueError:
        check(name not in accepted, "%s rejects %s", kind, name)
        ctx.saw((kind, name, False))
        ctx.agreed()
        return
    check(name in accepted, "%s accepts %s", kind, name)
    ctx.saw((kind, name, True))
    ctx.agreed()


def no_velocity(ctx, name):
    satellite = Satellite(frames()[name])
    check(satellite.velocity is None, "velocity out of nowhere")
    try:
        satellite.attitude(place())
    except ValueError:
        ctx.saw((name, "no velocity"))
        return
    check(False, "attitude without a velocity")


def explore(ctx):
    ctx.cases(awkward, [(name, k) for name in FIELDS for k in range(len(AWKWARD))], chunk=8)
    jobs = []
    for name in FIELDS:
        n = len(FIELDS[name]) + 1
        for kinds in itertools.product(SHAPES, repeat=n):
            jobs.append((name, list(kinds)))
    ctx.note(shapes=sorted(SHAPES), containers=sorted(FIELDS))
    ctx.sample(jobs[100])
    ctx.cases(shapes, jobs, chunk=512)
    more = []
    for name in FIELDS:
        units_ = ["km", "m", "mi"]
        if name in ("GCRS", "ITRS", "LVLH"):
            units_ += [["/", "km", "s"], ["/", "m", "hr"]]
        for unit_ in units_:
            for angle in ("deg", "rad", "arcmin", "hourangle"):
                for n in (0, 1, 2, 5):
                    more.append((name, unit_, angle, n))
    ctx.cases(contents, more, chunk=16)
    for kind in ("Coordinate", "Satellite position", "Satellite velocity"):
        for name in frames():
            ctx.case(consumer, kind, name)
    for name in ("GCRS", "ITRS"):
        ctx.case(no_velocity, name)
