"""Solar times, hour angles and universal time."""
import itertools

import numpy as np

from mc import geo
from mc.core import check
from mc.env import angle_difference, require_close
from celest import units as u
from celest.coordinates.astronomical_quantities import equation_of_time
from celest.time import Time

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("a clock steps through 1800 to 2200 in steps of 0.37 days and, around sample epochs, "
        "through every minute of a day; at every instant and for every longitude of a grid, given "
        "as scalar, list or array, mean and true solar time, both hour angles and universal time "
        "are compared with the clock, with each other and with the Sun of an independent "
        "ephemeris (ERFA); distinct = distinct (span, longitude)")
ASSUMPTIONS = ["true solar time within 5 s of the ERFA Sun between 1800 and 2200, the others "
               "within 0.2 ms of the clock (the digits of a Julian date)"]

LONGITUDES = [-360.0, -180.0, -118.24, -105.0, -1e-9, 0.0, 7.5, 147.46, 179.99, 180.0, 359.0,
              360.0, 540.5, -725.25, 1085.0, 36015.0]
OFFSETS = [0.0, 2430000.0, 2400000.5, 2430000.1234564, -0.00001234567, -1234567.3141592653]
HOUR = 1.0 / 3600


def hours(quantity, n, what):
    check(quantity.data.shape == (n,), "%s has shape %s", what, quantity.data.shape)
    value = quantity.to(u.hourangle)
    check(np.all(np.isfinite(value)), "%s is not a number", what)
    check(np.all((value >= 0) & (value <= 24)), "%s leaves the range 0 to 24 hours", what)
    return value


def same(a, b, what, seconds, labels):
    wrong = np.abs(angle_difference(a, b, 24.0)) > seconds * HOUR
    for i in np.nonzero(wrong)[0][:1]:
        check(False, "%s at JD %r: %r h and not %r h", what, labels[i], np.ravel(a)[i],
              np.ravel(b)[i])


def clock(ctx, first, last, step, offset):
    julian = np.arange(first, last, step)
    n = len(julian)
    time = Time(julian - offset, offset)
    julian = (julian - offset) + offset
    civil = 24 * ((julian + 0.5) % 1)
    _, apparent = geo.sun(julian)
    _, gast = geo.sidereal(julian)
    ephemeris = gast - apparent / 15        # hour angle of the Sun at Greenwich
    eot = equation_of_time(u.Quantity(julian, u.jd2000)).to(u.deg) / 15
    same(hours(time.ut1(), n, "ut1"), civil, "ut1", 2e-4, julian)
    for k, longitude in enumerate(LONGITUDES):
        form = [longitude, [longitude] * n, np.full(n, longitude)][k % 3]
        mean = hours(time.mean_solar_time(form), n, "mean solar time")
        true = hours(time.true_solar_time(form), n, "true solar time")
        mean_angle = hours(time.mean_hour_angle(form), n, "mean hour angle")
        true_angle = hours(time.true_hour_angle(form), n, "true hour angle")
        same(mean, civil + longitude / 15, "mean solar time", 2e-4, julian)
        same(true, mean + eot, "true - mean solar time against the equation of time", 1e-6, julian)
        same(mean_angle, mean - 12, "mean hour angle", 1e-6, julian)
        same(true_angle, true - 12, "true hour angle", 1e-6, julian)
        same(true_angle, ephemeris + longitude / 15, "the Sun's hour angle", 5.0, julian)
        ctx.agreed(5 * n)
        ctx.saw((first, longitude))
    # one longitude per time
    mixed = np.array([LONGITUDES[i % len(LONGITUDES)] for i in range(n)])
    same(hours(time.mean_solar_time(mixed), n, "mean solar time"), civil + mixed / 15,
         "mean solar time of mixed longitudes", 2e-4, julian)
    same(hours(time.true_solar_time(list(mixed)), n, "true solar time"), civil + mixed / 15 + eot,
         "true solar time of mixed longitudes", 2e-4, julian)
    same(hours(time.true_hour_angle(mixed), n, "true hour angle"), civil + mixed / 15 + eot - 12,
         "true hour angle of mixed longitudes", 2e-4, julian)
    ctx.step(n * len(LONGITUDES))
    ctx.agreed(3 * n)


def inputs(ctx, julian, offset):
    """Scalars, lists and arrays of times with an offset are the same instants."""
    total = julian + offset
    forms = {"scalar": julian, "list": [julian], "array": np.array([julian]),
             "integer": int(total), "integers": np.array([int(total)])}
    for name, form in forms.items():
        time = Time(form, 0 if name.startswith("integer") else offset)
        wanted = float(int(total)) if name.startswith("integer") else total
        check(len(time) == 1, "a %s of times has length %d", name, len(time))
        check(np.array_equal(time.julian.to(u.jd2000), [wanted]), "%s: times are %s", name,
              time.julian)
        require_close(angle_difference(time.mean_solar_time(30.0).to(u.hourangle),
                                       24 * ((wanted + 0.5) % 1) + 2, 24.0), [0.0], name, abs_=1e-7)
        ctx.agreed()
    for bad in (np.zeros((2, 2)), np.zeros((1, 1)), [[julian]]):
        try:
            Time(bad)
        except ValueError:
            continue
        check(False, "times shaped %s were accepted", np.shape(bad))
    ctx.saw((julian, offset))


def explore(ctx):
    step = 0.37 if not ctx.thorough else 0.0173
    width = 4000 if not ctx.thorough else 400
    jobs = []
    for k, first in enumerate(np.arange(2378496.5, 2524593.5, width)):
        jobs.append((float(first), float(min(first + width, 2524593.5)), step,
                     OFFSETS[k % len(OFFSETS)]))
    jobs.insert(0, (2415020.5, 2415020.5 + 30001 * step, step, 0.0))
    for epoch in geo.EPOCHS:
        jobs.append((epoch, epoch + 1.001, 1 / 1440, 0.0))
    ctx.note(instants=int((2524593.5 - 2378496.5) / step) + 1440 * len(geo.EPOCHS),
             longitudes=len(LONGITUDES))
    ctx.sample({"longitudes": LONGITUDES, "epochs": geo.EPOCHS})
    ctx.cases(clock, jobs, chunk=1)
    ctx.cases(inputs, [(j - o, o) for j in geo.EPOCHS for o in OFFSETS],
              chunk=8)
