"""Azimuth and elevation against the local geodetic horizon."""
import itertools

import numpy as np

from mc import geo
from mc.core import check
from mc.env import same_place, unit
from celest import units as u
from celest.coordinates import AzEl, Coordinate, GCRS, GroundLocation, ITRS, WGS84

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("every pair of a ground location (poles, equator, date line, hemispheres, units) and a "
        "target direction and range (zenith, nadir, all compass points, above, on and below the "
        "horizon), placed in the location's own east-north-up axes, is given in ITRS, WGS84 and "
        "GCRS and converted; azimuth, elevation, ranges, times and location are compared; "
        "distinct = distinct (location, target)")
ASSUMPTIONS = ["targets from 100 m to 400000 km away; angles agree to 2e-5 degrees plus what 1 cm "
               "of position amounts to"]

LOCATIONS = [(lat, lon, h) for lat in (-90.0, -60.0, -33.3, 0.0, 1e-6, 43.6532, 89.9, 90.0)
             for lon in (-180.0, -179.5, -79.3832, 0.0, 30.0, 90.0, 150.25, 180.0)
             for h in (-0.4, 0.076, 8.8)]
AZIMUTHS = [0.0, 1e-4, 30.0, 45.0, 89.999, 90.0, 91.0, 135.0, 180.0, 190.0, 225.0, 269.999,
            270.0, 271.0, 315.0, 359.0, 359.9999]
ELEVATIONS = [-90.0, -89.9999, -60.0, -10.0, -0.01, 0.0, 0.01, 5.0, 10.0, 45.0, 75.0, 89.0, 89.99, 89.999, 89.9999,
              90.0]
RANGES = [0.1, 10.0, 600.0, 2500.0, 36000.0, 400000.0]


def targets(location, ranges):
    east, north, up = geo.enu(location[0], location[1])
    base = geo.geodetic_to_itrs(*location)
    rows = []
    for az, el, r in itertools.product(AZIMUTHS, ELEVATIONS, ranges):
        a, e = np.radians(az), np.radians(el)
        rows.append((az, el, r, base + r * (np.cos(e) * (np.sin(a) * east + np.cos(a) * north)
                                            + np.sin(e) * up)))
    return rows


def judge(ctx, azel, rows, location, what, slack):
    az, el = azel.azimuth.to(u.deg), azel.elevation.to(u.deg)
    check(np.all(np.isfinite(az)) and np.all(np.isfinite(el)), "%s: not a number", what)
    check(np.all((az >= 0) & (az <= 360)), "%s: azimuth out of range", what)
    check(np.all(np.abs(el) <= 90), "%s: elevation out of range", what)
    want_az = np.array([r[0] for r in rows])
    want_el = np.array([r[1] for r in rows])
    distance = np.array([r[2] for r in rows])
    tol = 2e-5 + np.degrees(slack / distance)
    bad = np.abs(el - want_el) > tol
    # the azimuth is only as sharp as the horizontal distance
    across = np.maximum(np.cos(np.radians(want_el)), 1e-12)
    bad_az = np.abs(geo_difference(az, want_az)) * across > tol
    for i in np.nonzero(bad | bad_az)[0][:1]:
        check(False, "%s at %s: azimuth %r elevation %r, expected %r %r at %r km", what,
              location, az[i], el[i], want_az[i], want_el[i], distance[i])
    ctx.agreed(2 * len(rows))


def geo_difference(a, b):
    return (a - b + 180) % 360 - 180


def horizon(ctx, location, angular, length, ranges, copies=1):
    rows = targets(location, ranges) * copies
    scale_a = {"deg": 1.0, "rad": np.pi / 180, "arcmin": 60.0, "arcsec": 3600.0}[angular]
    scale_l = {"km": 1.0, "m": 1e3, "ft": 1e3 / 0.305}[length]
    place = GroundLocation(location[0] * scale_a, location[1] * scale_a, location[2] * scale_l,
                           unit(angular), unit(length))
    xyz = np.array([r[3] for r in rows])
    times = 2455368.75 + np.arange(len(rows)) * 0.003
    itrs = ITRS(times, *[c * 1000 for c in xyz.T], u.m)
    direct = Coordinate(itrs).convert_to(AzEl, place)
    judge(ctx, direct, rows, location, "ITRS", 1e-6)
    check(np.array_equal(direct.time.to(u.jd2000), times), "times changed")
    check(same_place(direct.location, place), "the location is lost")

    above = np.array([r[1] >= 0 for r in rows])
    lat, lon, h = geo.itrs_to_geodetic(xyz[above])
    kept = [r for r, a in zip(rows, above) if a]
    wgs = WGS84(times[above], lat, lon, h, u.deg, u.km)
    judge(ctx, Coordinate(wgs).convert_to(AzEl, place), kept, location, "WGS84", 1e-4)
    gcrs = Coordinate(itrs).convert_to(GCRS)
    judge(ctx, Coordinate(gcrs).convert_to(AzEl, place), rows, location, "GCRS", 1e-4)
    # one sample at a time agrees too
    for i in range(0, len(rows), 37 * copies):
        one = ITRS(times[i:i + 1], *[c[i:i + 1] for c in xyz.T], u.km)
        judge(ctx, Coordinate(one).convert_to(AzEl, place), rows[i:i + 1], location, "single",
              1e-6)
    for r in rows:
        ctx.saw((location, r[:3]))


def explore(ctx):
    jobs = []
    for location in LOCATIONS:
        for angular, length in (("deg", "km"), ("rad", "m"), ("arcmin", "ft")):
            limit = abs(location[0]) == 90 or abs(location[1]) == 180
            if angular != "deg" and limit:
                continue
            jobs.append((location, angular, length, RANGES))
    # ten thousand targets at once
    jobs[:0] = [(LOCATIONS[100], "deg", "m", RANGES, 7), (LOCATIONS[40], "deg", "km", RANGES, 11)]
    if ctx.thorough:
        for lat in np.arange(-90, 90.1, 7.5):
            for lon in np.arange(-180, 180.1, 15.0):
                jobs.append(((float(lat), float(lon), 0.1), "deg", "km", RANGES))
    ctx.note(locations=len(LOCATIONS), targets=len(AZIMUTHS) * len(ELEVATIONS) * len(RANGES))
    ctx.sample({"location": LOCATIONS[5], "azimuths": AZIMUTHS, "elevations": ELEVATIONS,
                "ranges_km": RANGES})
    ctx.cases(horizon, jobs, chunk=1)
