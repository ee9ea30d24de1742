"""Satellite distance, look angle and altitude obey the geometry of the scene."""
import itertools

import numpy as np

from mc import geo
from mc.core import check
from mc.env import require_close, unit
from celest import units as u
from celest.coordinates import AzEl, Coordinate, GCRS, GroundLocation, ITRS, WGS84
from celest.satellite import Satellite

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("every pair of a satellite position (all latitudes and longitudes of a grid, heights from "
        "150 km to lunar distance) and a ground location, in every input frame and unit, is asked "
        "for distance, look angle and altitude; these are compared with vector geometry and with "
        "each other (elevation, the sub-satellite point); distinct = distinct "
        "(location, frame, units)")
ASSUMPTIONS = ["distances agree to 1e-9, angles to 1e-6 degrees (3e-6 within 0.1 degrees of 0 "
               "and 180, where an arc cosine has no more digits), altitudes to 1 mm"]

LATITUDES = [-90.0, -66.0, -23.4, 0.0, 1e-3, 43.6532, 60.0, 89.99]
LONGITUDES = [-180.0, -120.0, -79.3832, -0.01, 0.0, 65.0, 179.9]
HEIGHTS = [150.0, 418.0, 1200.0, 20200.0, 35786.0, 384400.0]
LOCATIONS = [(90.0, 0.0, 0.0), (-90.0, 12.0, 2.835), (0.0, 0.0, 0.0), (0.0, 180.0, -0.01),
             (43.6532, -79.3832, 0.076), (-33.3, -180.0, 1.2), (31.5, 35.5, -0.43),
             (27.988, 86.925, 8.848),
             # above most satellites: look angles beyond 90 degrees
             (5.0, -60.0, 3000.0), (-45.0, 100.0, 60000.0)]
FACTOR = {"km": 1.0, "m": 1e3, "ft": 1e3 / 0.305, "deg": 1.0, "rad": np.pi / 180,
          "arcmin": 60.0}


def geometry(ctx, location, angular, length, frame, copies=1):
    lat, lon, height, xyz = (np.concatenate([a] * copies)
                             for a in geo.positions(LATITUDES, LONGITUDES, HEIGHTS))
    n = len(lat)
    times = 2459450.85 + np.arange(n) * 0.01
    place = GroundLocation(location[0] * FACTOR[angular], location[1] * FACTOR[angular],
                           location[2] * FACTOR[length], unit(angular), unit(length))
    source = ITRS(times, *(xyz * FACTOR[length]).T, unit(length))
    slack = 1e-9
    if frame == "GCRS":
        source = Coordinate(source).convert_to(GCRS)
        slack = 1e-7
    satellite = Satellite(source)
    ground = geo.geodetic_to_itrs(*location)
    line = xyz - ground
    distance = np.linalg.norm(line, axis=1)
    require_close(satellite.distance(place).to(u.km), distance, "distance", rel=1e-12, abs_=slack)
    require_close(satellite.altitude().to(u.km), height, "altitude", rel=1e-12, abs_=1e-6)

    radius = np.linalg.norm(xyz, axis=1)
    cosine = np.sum(line * xyz, axis=1) / distance / radius
    sine = np.linalg.norm(np.cross(line, xyz), axis=1) / distance / radius
    wanted = np.degrees(np.arctan2(sine, cosine))
    look = satellite.look_angle(place)
    check(str(look.unit) in ("deg", "rad", "arcsec", "arcmin", "hourangle"), "no angle")
    look = look.to(u.deg)
    check(np.all((look >= 0) & (look <= 180)), "look angle out of range")
    near = (wanted < 0.1) | (wanted > 179.9)
    bad = np.abs(look - wanted) > np.where(near, 3e-6, 1e-6)
    for i in np.nonzero(bad)[0][:1]:
        check(False, "look angle from %s to %s is %r and not %r",
              (lat[i], lon[i], height[i]), location, look[i], wanted[i])
    # no point of the Earth is farther off nadir than the limb
    if location[2] < 100:
        check(np.all(look[height > 100] < 90), "a ground point is more than 90 degrees off nadir")
    # the elevation is positive exactly on this side of the local horizon
    elevation = Coordinate(satellite.position).convert_to(AzEl, place).elevation.to(u.deg)
    up = geo.enu(location[0], location[1])[2]
    side = line @ up
    sure = np.abs(side) > 1e-6 * distance
    check(np.array_equal(elevation[sure] > 0, side[sure] > 0), "elevation has the wrong sign")
    ctx.agreed(4 * n)
    ctx.saw((location, angular, length, frame))


def below(ctx, lat, lon, angular, length):
    """Right above a place: altitude and distance differ by its height."""
    for low in (-0.4, 0.0, 8.8):
        heights = np.array([low + 0.001, low + 1.0, 500.0, 36000.0])
        n = len(heights)
        times = np.full(n, 2451545.25)
        xyz = geo.geodetic_to_itrs(np.full(n, lat), np.full(n, lon), heights)
        place = GroundLocation(lat * FACTOR[angular], lon * FACTOR[angular],
                               low * FACTOR[length], unit(angular), unit(length))
        satellite = Satellite(ITRS(times, *xyz.T, u.km))
        require_close(satellite.distance(place).to(u.km), heights - low, "distance overhead",
                      rel=0, abs_=1e-8)
        require_close(satellite.altitude().to(u.km), heights, "altitude overhead", rel=0,
                      abs_=1e-6)
        # off nadir by the difference of geodetic and geocentric vertical at most
        look = satellite.look_angle(place).to(u.deg)
        check(np.all(look < 0.2), "look angle overhead is %s", look)
        elevation = Coordinate(satellite.position).convert_to(AzEl, place).elevation.to(u.deg)
        check(np.all(elevation > 89.999), "elevation overhead is %s", elevation)
        ctx.agreed(4 * n)
    ctx.saw(("below", lat, lon))


def explore(ctx):
    jobs = []
    for location in LOCATIONS:
        for angular, length in itertools.product(("deg", "rad", "arcmin"), ("km", "m", "ft")):
            if angular != "deg" and (abs(location[0]) == 90 or abs(location[1]) == 180):
                continue
            for frame in ("ITRS", "GCRS"):
                jobs.append((location, angular, length, frame))
    if ctx.thorough:
        for lat in np.arange(-90, 90.1, 7.5):
            for lon in np.arange(-180, 180.1, 15.0):
                for frame in ("ITRS", "GCRS"):
                    jobs.append(((float(lat), float(lon), 0.5), "deg", "km", frame))
    # ten thousand positions at once
    jobs[:0] = [(LOCATIONS[4], "deg", "km", frame, 40) for frame in ("ITRS", "GCRS")]
    ctx.note(places=len(LOCATIONS), positions=len(LATITUDES) * len(LONGITUDES) * len(HEIGHTS))
    ctx.sample({"locations": LOCATIONS[:3], "heights": HEIGHTS})
    ctx.cases(geometry, jobs, chunk=1)
    jobs = [(lat, lon, a, l) for lat in (-90.0, -45.0, 0.0, 30.0, 89.9, 90.0)
            for lon in (-180.0, -79.0, 0.0, 135.0, 180.0)
            for a, l in (("deg", "km"), ("rad", "m"))
            if a == "deg" or (abs(lat) < 90 and abs(lon) < 180)]
    ctx.cases(below, jobs, chunk=4)
