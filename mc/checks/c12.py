"""Ground locations: limits in any unit, and the values given back."""
import itertools
import math

import numpy as np

from mc import geo
from mc.core import check
from mc.env import unit
from celest import units as u
from celest.coordinates import GroundLocation

PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("every combination of latitude, longitude and height alphabets (inside, on and just beyond "
        "the limits, both signs, integers and floats, infinities and NaN) in every angular and length unit: the "
        "location exists exactly when |latitude| <= 90 deg and |longitude| <= 180 deg, and then "
        "returns the values in the units given; its repr rebuilds it; distinct = distinct inputs")
ASSUMPTIONS = ["in units other than degrees values within 1e-9 degrees of a limit are left out: "
               "rounding decides those"]

DEGREES = [0.0, 1e-9, 0.5, 1.0, 1.5, 1.6, 3.1, 3.2, 6.0, 6.1, 12.0, 12.5, 15.0, 45.0, 75.0, 89.9999,
           90.0, 90.00000000000001, 90.0000000001, 90.0000005, 90.0001, 91.0, 120.0, 179.9999, 180.0, 180.00000000000003, 180.0000005, 180.0001, 200.0, 360.0, 1000.0]
PER_DEGREE = {"deg": 1.0, "rad": math.pi / 180, "arcmin": 60.0, "arcsec": 3600.0,
              "hourangle": 1 / 15}
WHOLE = {float(d) for d in range(-360, 361)}
BEYOND = [math.nan, math.inf, -math.inf]
HEIGHTS = [0, 76, -0.4, 8848.86]


def location(ctx, lat, lon, height, angular, length):
    if angular != "deg" and (abs(abs(lat) - 90) < 1e-9 or abs(abs(lon) - 180) < 1e-9):
        return
    a, b = lat * PER_DEGREE[angular], lon * PER_DEGREE[angular]
    if angular == "deg" and lat in WHOLE:
        a = int(lat)
    wanted = abs(lat) <= 90 and abs(lon) <= 180
    try:
        place = GroundLocation(a, b, height, unit(angular), unit(length))
    except ValueError:
        check(not wanted, "(%r, %r) %s is rejected", a, b, angular)
        ctx.saw((lat, lon, angular, False))
        ctx.agreed()
        return
    check(wanted, "(%r, %r) %s is accepted", a, b, angular)
    for got, value, name in ((place.latitude, a, angular), (place.longitude, b, angular),
                             (place.height, height, length)):
        check(got.data == value and str(got.unit) == name, "stored %r, got %s", value, got)
    again = eval(repr(place), {"GroundLocation": GroundLocation, "Unit": lambda n: unit(n)})
    for field in ("latitude", "longitude", "height"):
        check(getattr(again, field).data == getattr(place, field).data
              and str(getattr(again, field).unit) == str(getattr(place, field).unit),
              "repr %r does not rebuild the location", repr(place))
    ctx.agreed(7)
    ctx.saw((lat, lon, angular, True))


def explore(ctx):
    signed = sorted(set(DEGREES) | {-d for d in DEGREES})
    jobs = []
    for lat, lon in itertools.product(signed, signed):
        for angular in PER_DEGREE:
            jobs.append((lat, lon, 76, angular, "m"))
    for height in HEIGHTS:
        for length in ("km", "m", "mm", "cm", "ft", "yd", "mi", "inch"):
            for angular in PER_DEGREE:
                jobs.append((45.0, -120.0, height, angular, length))
    for angular in PER_DEGREE:
        for x, y in itertools.product(BEYOND + [0.0, 45.0, -90.0], repeat=2):
            jobs.append((x, y, 76, angular, "m"))
    if ctx.thorough:
        fine = np.round(np.arange(-182, 182.05, 2.6), 6).tolist()
        jobs += [(a, b, 1.5, n, "km") for a in fine for b in fine for n in PER_DEGREE]
    ctx.sample(jobs[1234])
    ctx.cases(location, jobs, chunk=512)
