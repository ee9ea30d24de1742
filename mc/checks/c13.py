"""The printed form of a ground location reads back as that location."""
import itertools
import re

import numpy as np

from mc.core import check
from mc.env import SIZE, unit
from celest import units as u
from celest.coordinates import GroundLocation

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("locations whose angles lie on and around every kind of carry (hundredths of a second, "
        "seconds, minutes, degrees, the limits) in every hemisphere, in every angular unit and "
        "with heights around rounding boundaries are printed and parsed back: minutes and seconds "
        "below 60, right hemisphere (zero counts as north and east), value within half a hundredth of a second, height within "
        "half a hundredth in its unit; distinct = distinct texts")
ASSUMPTIONS = []

PATTERN = re.compile("^(\\d{2,})\u00b0(\\d{2})\u2032(\\d{2}\\.\\d{2})\u2033([NS]) "
                     "(\\d{2,})\u00b0(\\d{2})\u2032(\\d{2}\\.\\d{2})\u2033([EW]) "
                     "(-?\\d+\\.\\d{2})([a-z]+)$")
PER_DEGREE = {"deg": 1.0, "rad": np.pi / 180, "arcmin": 60.0, "arcsec": 3600.0,
              "hourangle": 1 / 15}


def printed(ctx, lat, lon, height, angular, length):
    scale = PER_DEGREE[angular]
    place = GroundLocation(lat * scale, lon * scale, height, unit(angular), unit(length))
    text = str(place)
    match = PATTERN.match(text)
    check(match is not None, "%r %r %r prints as %r", lat, lon, height, text)
    g = match.groups()
    for value, (d, m, s, h), signs in ((lat, g[0:4], "NS"), (lon, g[4:8], "EW")):
        check(int(m) < 60 and float(s) < 60, "%r prints as %r", value, text)
        got = int(d) + int(m) / 60 + float(s) / 3600
        check(abs(got - abs(value)) * 3600 <= 0.005 + 1e-6, "%r prints as %r", value, text)
        check(h == signs[0 if value >= 0 else 1], "%r is in hemisphere %s", value, h)
    check(abs(float(g[8]) - height) <= 0.005 + 1e-9 * abs(height) and g[9] == length,
          "height %r %s prints as %r", height, length, text)
    ctx.agreed(3)
    ctx.saw(text)


def angles(limit, thorough):
    values = set()
    degrees = [0, 1, 9, 10, 43, 59, 60, 89, 90] + ([99, 100, 179, 180] if limit == 180 else [])
    minutes = [0, 1, 9, 30, 59]
    seconds = [0.0, 0.004, 0.0049, 0.0051, 0.01, 1.0, 9.994, 9.996, 29.995, 59.0, 59.99, 59.994,
               59.9949, 59.9951, 59.996, 59.999, 59.9999999]
    for d, m, s in itertools.product(degrees, minutes, seconds):
        value = d + m / 60 + s / 3600
        if value <= limit:
            values.add(value)
    for d in degrees:
        for e in (1e-12, 1e-9, 1e-7, 1e-6, 1e-4):
            values |= {v for v in (d - e, d + e) if 0 <= v <= limit}
    if thorough:
        values |= {v for v in np.round(np.arange(0, limit, 0.0137), 9).tolist()}
        values |= {k / 360000.0 for k in range(0, 36000)}
    return sorted(values)


def explore(ctx):
    jobs = []
    latitudes, longitudes = angles(90, ctx.thorough), angles(180, ctx.thorough)
    for sign in (1, -1):
        for i, lat in enumerate(latitudes):
            lon = longitudes[(i * 7) % len(longitudes)]
            for angular in PER_DEGREE:
                if angular != "deg" and (lat > 89.99999999 or lon > 179.99999999):
                    continue
                jobs.append((sign * lat, -sign * lon if i % 2 else sign * lon, 76.0, angular, "m"))
        for i, lon in enumerate(longitudes):
            jobs.append((sign * latitudes[(i * 5) % len(latitudes)], sign * lon, 0.5, "deg", "km"))
    for height in (0, 0.004, 0.0051, 0.994, 0.996, 9.999, -0.4, -12.345, 8848.86, 1234567.891, 5):
        for length in ("m", "km", "mm", "cm", "ft", "yd", "mi", "inch"):
            jobs.append((12.5, -33.25, height, "deg", length))
    ctx.note(latitudes=len(latitudes), longitudes=len(longitudes))
    ctx.sample(jobs[777])
    ctx.cases(printed, jobs, chunk=512)
