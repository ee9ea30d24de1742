"""Sidereal times against an independent Earth rotation model, and with each other."""
import numpy as np

from mc import geo
from mc.core import check
from mc.env import angle_difference
from mc.checks.c17 import LONGITUDES, OFFSETS, hours, same
from celest import units as u
from celest.coordinates.astronomical_quantities import equation_of_equinoxes
from celest.time import Time

PROPERTY = "C18"
LEVEL = "exploration"
RULE = ("a clock steps through 1800 to 2200 and through every minute of days around sample epochs; "
        "at every instant and longitude the mean and apparent sidereal times of Greenwich and of "
        "the place have to agree with ERFA's (IAU 2006/2000A), keep their range, differ by the "
        "equation of the equinoxes and shift by an hour per 15 degrees; distinct = distinct "
        "(span, longitude)")
ASSUMPTIONS = ["Greenwich times within 0.3 s, local times within 2 s (the library's mean Sun) "
               "of ERFA between 1800 and 2200, all time scales taken equal"]


def clock(ctx, first, last, step, offset):
    julian = np.arange(first, last, step)
    n = len(julian)
    time = Time(julian - offset, offset)
    julian = (julian - offset) + offset
    mean, apparent = geo.sidereal(julian)
    gmst = hours(time.gmst(), n, "gmst")
    gast = hours(time.gast(), n, "gast")
    same(gmst, mean, "gmst", 0.3, julian)
    same(gast, apparent, "gast", 0.3, julian)
    nutation = angle_difference(gast, gmst, 24.0) * 3600
    check(np.all(np.abs(nutation) < 1.3), "apparent and mean sidereal time differ by %r s",
          np.abs(nutation).max())
    reference = angle_difference(apparent, mean, 24.0) * 3600
    check(np.all(np.abs(nutation - reference) < 0.04),
          "the equation of the equinoxes is off by %r s", np.abs(nutation - reference).max())
    greenwich = None
    for k, longitude in enumerate(LONGITUDES):
        form = [longitude, [longitude] * n, np.full(n, longitude)][k % 3]
        lmst = hours(time.lmst(form), n, "lmst")
        last_ = hours(time.last(form), n, "last")
        same(lmst, mean + longitude / 15, "lmst", 2.0, julian)
        same(last_, apparent + longitude / 15, "last", 2.0, julian)
        same(last_ - lmst, gast - gmst, "last - lmst", 1e-3, julian)
        if greenwich is None:
            greenwich = hours(time.lmst(0), n, "lmst"), hours(time.last(0), n, "last")
        same(lmst, greenwich[0] + longitude / 15, "lmst along the parallel", 1e-5, julian)
        same(last_, greenwich[1] + longitude / 15, "last along the parallel", 1e-5, julian)
        ctx.agreed(5 * n)
        ctx.saw((first, longitude))
    mixed = np.array([LONGITUDES[i % len(LONGITUDES)] for i in range(n)])
    same(hours(time.lmst(mixed), n, "lmst"), greenwich[0] + mixed / 15, "lmst, mixed", 1e-5,
         julian)
    same(hours(time.last(list(mixed)), n, "last"), greenwich[1] + mixed / 15, "last, mixed",
         1e-5, julian)
    ctx.step(n * len(LONGITUDES))


def few(ctx, first, count, order):
    """A handful of instants, in this order, against each of them alone."""
    julian = first + np.array([0.0, 0.4, 0.8, 1.3, 30.1])[:count][::order]
    longitude = np.array([10.0, -105.0, 0.0, 180.0, 90.0])[:count]
    time = Time(julian)
    mean, apparent = geo.sidereal(julian)
    same(hours(time.gmst(), count, "gmst"), mean, "gmst", 0.3, julian)
    same(hours(time.gast(), count, "gast"), apparent, "gast", 0.3, julian)
    for form in (longitude, float(longitude[0]), list(longitude)):
        shift = np.array(form) / 15
        same(hours(time.lmst(form), count, "lmst"), mean + shift, "lmst", 2.0, julian)
        same(hours(time.last(form), count, "last"), apparent + shift, "last", 2.0, julian)
    ctx.step(count)
    ctx.agreed(8 * count)
    ctx.saw((first, count, order))


def explore(ctx):
    ctx.cases(few, [(float(epoch), count, order) for epoch in geo.EPOCHS
                    for count in (1, 2, 3, 4, 5) for order in (1, -1)])
    step = 0.37 if not ctx.thorough else 0.0173
    width = 4000 if not ctx.thorough else 400
    jobs = []
    for k, first in enumerate(np.arange(2378496.5, 2524593.5, width)):
        jobs.append((float(first), float(min(first + width, 2524593.5)), step,
                     OFFSETS[k % len(OFFSETS)]))
    jobs.insert(0, (2415020.5, 2415020.5 + 30001 * step, step, 0.0))
    for epoch in geo.EPOCHS:
        jobs.append((epoch, epoch + 1.001, 1 / 1440, 0.0))
    ctx.note(instants=int((2524593.5 - 2378496.5) / step) + 1440 * len(geo.EPOCHS),
             longitudes=len(LONGITUDES))
    ctx.sample({"longitudes": LONGITUDES, "epochs": geo.EPOCHS})
    ctx.cases(clock, jobs, chunk=1)
