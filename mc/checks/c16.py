"""Calendar dates, civil times and days of the year."""
import datetime as dt
import itertools

import numpy as np

from mc.core import check
from mc.env import require_close
from celest import units as u
from celest.coordinates.astronomical_quantities import day_of_year, from_julian
from celest.time import Time

PROPERTY = "C16"
LEVEL = "exploration"
RULE = ("a calendar automaton steps through every single day of the range (Julian calendar until "
        "4 October 1582, Gregorian from 15 October 1582) next to its Julian day number; at "
        "several instants of every day the library's date, civil time and day of year have to be "
        "the automaton's, for whole arrays, single-element arrays, scalars and offsets; states "
        "are calendar days; distinct = distinct (day, instant)")
ASSUMPTIONS = ["instants are as exact as the double holding the Julian date (40 microseconds)",
               "29 February of century years before 1582 has no datetime and is left out",
               "day of year is not decided for 1582, a year of 355 days"]

# Instants of a civil day, as fractions of a day exactly representable next to a Julian date.
INSTANTS = [0.0, 2.0 ** -20, 0.25, 0.5 - 2.0 ** -20, 0.5, 0.71875, 1 - 2.0 ** -20]
SPAN = (-4700, 6000)
# Offsets of a clock, also with many decimals, small and negative.
OFFSETS = [0.0, 2430000.0, 2400000.5, 2430000.1234564, -0.00001234567, 1721424.9876543219, 1e-9,
           -1234567.3141592653]


def leap(year):
    if year <= 1582:
        return year % 4 == 0
    return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)


def calendar(first, last):
    """Yields (Julian day number at noon, year, month, day, day of year) for whole years.

    Year zero exists (1 BC), as astronomers count.
    """
    # anchor: 1 January 2000 is Julian day 2451545
    number = 2451545
    if first <= 2000:
        for year in range(first, 2000):
            number -= 366 if leap(year) else 365
            if year == 1582:
                number += 10
    else:
        for year in range(2000, first):
            number += 366 if leap(year) else 365
    for year in range(first, last):
        ordinal = 0
        for month in range(1, 13):
            length = [31, 29 if leap(year) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month - 1]
            for day in range(1, length + 1):
                if (year, month) == (1582, 10) and 4 < day < 15:
                    continue
                ordinal += 1
                yield number, year, month, day, ordinal
                number += 1


def year_span(ctx, first, last, instants):
    days = list(calendar(first, last))
    if first <= 1582 < last:
        i = [d[1:4] for d in days].index((1582, 10, 15))
        check(days[i][0] == 2299161, "the reference calendar is off")
    numbers = np.array([d[0] for d in days], dtype=float)
    year, month, day, ordinal = (np.array([d[k] for d in days]) for k in (1, 2, 3, 4))
    for fraction in instants:
        julian = numbers - 0.5 + fraction
        fraction_there = julian - (numbers - 0.5)
        got = from_julian(u.Quantity(julian, u.jd2000))
        for name, a, b in (("year", got[0], year), ("month", got[1], month)):
            wrong = np.nonzero(np.asarray(a) != b)[0]
            if len(wrong):
                i = wrong[0]
                check(False, "%s of JD %r is %r and not %r", name, julian[i], a[i], b[i])
        require_close(got[2], day + fraction_there, "day of the month", rel=0, abs_=1e-8,
                      labels=julian)
        known = year != 1582
        of_year = day_of_year(u.Quantity(julian, u.jd2000))
        wrong = np.nonzero((np.asarray(of_year) != ordinal) & known)[0]
        if len(wrong):
            i = wrong[0]
            check(False, "day of year of JD %r is %r and not %r", julian[i], of_year[i],
                  ordinal[i])
        ctx.agreed(4 * len(days))
    for d in days:
        ctx.state(d[0])
    ctx.step(len(days) * len(instants))
    ctx.saw((first, last))


def civil(ctx, first, last, offset):
    days = [d for d in calendar(first, last)]
    # a representable subset of the days for the slower datetime objects
    days = [d for d in days if d[3] in (1, 2, 4, 15, 28, 29, 30, 31)]
    # a datetime cannot hold 29 February of the years only the Julian calendar makes leap
    days = [d for d in days if d[2:4] != (2, 29) or d[1] % 100 or d[1] % 400 == 0]
    numbers = np.array([d[0] for d in days], dtype=float)
    for fraction in INSTANTS:
        julian = numbers - 0.5 + fraction
        stamps = Time(julian - offset, offset).datetime()
        check(len(stamps) == len(days), "%d civil times for %d instants", len(stamps), len(days))
        actual = (julian - offset) + offset
        for d, j, stamp in zip(days, actual, stamps):
            wanted = dt.datetime(*d[1:4]) + dt.timedelta(days=j - (d[0] - 0.5))
            check(abs(stamp - wanted) <= dt.timedelta(microseconds=2),
                  "civil time of JD %r is %s and not %s", j, stamp, wanted)
        ctx.agreed(len(days))
    ctx.saw((first, last, offset))


def shapes(ctx, number, year, month, day, ordinal):
    for fraction in (0.0, 0.25, 0.5, 0.71875):
        julian = number - 0.5 + fraction
        forms = [float(julian), np.array([julian]), np.array([julian, 2451545.0])]
        if fraction == 0.5:
            forms += [int(julian), np.array([int(julian)])]
        for form in forms:
            got = from_julian(u.Quantity(form, u.jd2000))
            check((int(np.ravel(got[0])[0]), int(np.ravel(got[1])[0])) == (year, month),
                  "%r is in %s-%s", form, got[0], got[1])
            require_close(np.ravel(got[2])[0], day + fraction, "day of %r" % (form,), rel=0,
                          abs_=1e-8)
            if year != 1582:
                of_year = np.ravel(day_of_year(u.Quantity(form, u.jd2000)))[0]
                check(of_year == ordinal, "day of year of %r is %r", form, of_year)
            ctx.agreed(4)
        for form in (julian, [julian], np.array([julian])):
            if (month, day) == (2, 29) and year % 100 == 0 and year % 400:
                continue
            stamp = Time(form).datetime()[0]
            wanted = dt.datetime(year, month, day) + dt.timedelta(days=fraction)
            check(abs(stamp - wanted) <= dt.timedelta(microseconds=2), "civil time of %r is %s",
                  form, stamp)
    ctx.saw((year, month, day))


def explore(ctx):
    first, last = SPAN
    instants = INSTANTS
    if ctx.thorough:
        instants = sorted(set(INSTANTS) | {k / 64 for k in range(64)})
    jobs = [(y, min(y + 5, last), instants) for y in range(first, last, 5)]
    ctx.note(years=last - first, instants=len(instants))
    ctx.sample({"years": SPAN, "instants": INSTANTS})
    ctx.cases(year_span, jobs)
    jobs = []
    for a in range(1, last, 5):
        jobs.append((a, min(a + 5, last), OFFSETS[a // 5 % len(OFFSETS)]))
    ctx.cases(civil, jobs)
    jobs = [d for y in (4, 1499, 1500, 1581, 1582, 1583, 1600, 1700, 1899, 1900, 1999, 2000, 2023,
                        2024, 2100)
            for d in calendar(y, y + 1) if (d[2], d[3]) in ((1, 1), (2, 28), (2, 29), (3, 1),
                                                           (10, 4), (10, 15), (12, 31))]
    ctx.cases(shapes, jobs, chunk=8)
