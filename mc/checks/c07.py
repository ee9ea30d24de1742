"""Geodetic coordinates and altitudes against the WGS84 ellipsoid."""
import itertools

import numpy as np

from mc import geo
from mc.core import check
from mc.env import require_close, unit
from celest import units as u
from celest.coordinates import Coordinate, GCRS, GroundLocation, ITRS, WGS84
from celest.satellite import Satellite

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("every combination of the latitude, longitude and height alphabets (poles, equator, date "
        "line, tiny offsets, depths to the Moon's distance), in several units, as one batch, in "
        "every small batch shape and as single samples: WGS84 -> ITRS, ITRS -> WGS84, satellite "
        "altitude and ground location coordinates are compared with the ellipsoid (forward "
        "formula and ERFA's closed-form inverse); distinct = distinct places")
ASSUMPTIONS = ["heights from -5000 km to 1.5e8 km; 1 mm (1e-11 of the distance) and 1e-9 degrees "
               "scaled by the distance"]

LAT = sorted(set(geo.LATITUDES + [-89.999999, -80.0, -30.0, -1.0, 1.0, 35.0, 54.7, 75.0, 89.0,
                                  89.999999, 1e-12]))
LON = sorted(set(geo.LONGITUDES + [-179.9999999, -60.0, -1e-9, 15.0, 60.0, 150.0, 179.9999999]))
HEIGHT = sorted(set(geo.HEIGHTS + [-5000.0, -1000.0, -100.0, -0.4, 1e-5, 100.0, 20200.0, 400000.0, 1.5e8]))


def grid(index=None, count=None):
    return np.array(list(itertools.product(LAT, LON, HEIGHT))).T


def compare(ctx, lat, lon, h, angular, length):
    lat, lon, h = (np.array(a, dtype=float) for a in (lat, lon, h))
    n = lat.size
    times = 2451545.0 + np.arange(n) * 0.01
    xyz = geo.geodetic_to_itrs(lat, lon, h)
    scale_a = {"deg": 1.0, "rad": np.pi / 180, "arcmin": 60.0, "arcsec": 3600.0,
               "hourangle": 1 / 15}[angular]
    scale_l = {"km": 1.0, "m": 1e3, "ft": 1e3 / 0.305, "mi": 1e3 / 1609.344}[length]
    size = np.linalg.norm(xyz, axis=-1)[:, None]
    tol = 1e-6 + 1e-11 * size
    labels = ["lat %r lon %r h %r" % t for t in zip(lat.tolist(), lon.tolist(), h.tolist())]

    # forward
    wgs = WGS84(times, lat * scale_a, lon * scale_a, h * scale_l, unit(angular), unit(length))
    out = Coordinate(wgs).convert_to(ITRS)
    got = np.stack([out.x.to(u.km), out.y.to(u.km), out.z.to(u.km)], axis=-1)
    worst = np.max(np.abs(got - xyz) / tol, axis=1) if n else np.zeros(0)
    for i in np.nonzero(~(worst <= 1))[0][:1]:
        check(False, "WGS84 -> ITRS gave %s instead of %s for %s (%s, %s)", got[i], xyz[i],
              labels[i], angular, length)

    # inverse
    itrs = ITRS(times, *[c * scale_l for c in xyz.T], unit(length))
    out = Coordinate(itrs).convert_to(WGS84)
    glat, glon, gh = (out.latitude.to(u.deg), out.longitude.to(u.deg), out.height.to(u.km))
    require_close(gh, h, "ITRS -> WGS84 height", rel=0, abs_=tol[:, 0],
                  labels=labels)
    require_close(glat, lat, "ITRS -> WGS84 latitude", rel=0, abs_=3e-9, labels=labels)
    near_axis = np.hypot(xyz[:, 0], xyz[:, 1])
    d = np.abs((glon - lon + 180) % 360 - 180) * near_axis
    for i in np.nonzero(~(d <= 1e-4))[0][:1]:
        check(False, "ITRS -> WGS84 longitude %r for %s", glon[i], labels[i])
    check(np.all(np.abs(glat) <= 90 + 1e-12) and np.all(np.abs(glon) <= 180 + 1e-12),
          "geodetic coordinates out of range")
    if n:
        rlat, rlon, rh = geo.itrs_to_geodetic(xyz)
        shallow = h >= -100          # ERFA's closed form is good near the surface and above
        require_close(gh[shallow], rh[shallow], "height against the closed form", rel=0,
                      abs_=tol[shallow, 0])
        require_close(glat[shallow], rlat[shallow], "latitude against the closed form", rel=0,
                      abs_=3e-9)

    # a satellite's altitude is that height
    require_close(Satellite(itrs).altitude().to(u.km), h, "altitude", rel=0,
                  abs_=tol[:, 0], labels=labels)
    ctx.agreed(4 * n)
    for i in range(n):
        ctx.saw(labels[i])


def via_gcrs(ctx, lat, lon, h, epoch):
    """A satellite given in GCRS has the same altitude."""
    xyz = geo.geodetic_to_itrs(np.array(lat), np.array(lon), np.array(h))
    times = np.full(len(lat), epoch)
    itrs = ITRS(times, *[c.copy() for c in xyz.T], u.km)
    gcrs = Coordinate(itrs).convert_to(GCRS)
    require_close(Satellite(gcrs).altitude().to(u.km), h, "altitude from GCRS", rel=0,
                  abs_=1e-5 + 1e-11 * np.abs(h))
    ctx.agreed(len(lat))


def ground(ctx, lat, lon, h, angular, length):
    scale_a = {"deg": 1.0, "rad": np.pi / 180, "arcmin": 60.0, "arcsec": 3600.0,
               "hourangle": 1 / 15}[angular]
    scale_l = {"km": 1.0, "m": 1e3, "ft": 1e3 / 0.305, "mi": 1e3 / 1609.344}[length]
    if abs(lat) > 89.99999999 or abs(lon) > 179.99999999:
        if angular != "deg":
            return          # the limit itself may round to either side in other units
    place = GroundLocation(lat * scale_a, lon * scale_a, h * scale_l, unit(angular),
                           unit(length))
    expected = geo.geodetic_to_itrs(lat, lon, h)
    got = [place.itrs_x.to(u.km), place.itrs_y.to(u.km), place.itrs_z.to(u.km)]
    what = "ground location at lat %r lon %r h %r (%s, %s)" % (lat, lon, h, angular, length)
    require_close(got, expected, what, rel=0, abs_=1e-6 + 1e-11 * abs(h))
    surface = float(np.linalg.norm(geo.geodetic_to_itrs(lat, lon, 0.0)))
    check(abs(place.radius.to(u.km) - surface - h) < 1e-6 + 1e-11 * abs(h),
          "%s: radius %r, expected %r", what, place.radius.to(u.km), surface + h)
    # seen through the frame conversion it is the same point
    wgs = WGS84(np.array([2451545.0]), np.array([lat]), np.array([lon]), np.array([h]), u.deg,
                u.km)
    itrs = Coordinate(wgs).convert_to(ITRS)
    require_close([itrs.x.to(u.km)[0], itrs.y.to(u.km)[0], itrs.z.to(u.km)[0]], got,
                  what + " against WGS84 -> ITRS", rel=0, abs_=1e-6 + 1e-11 * abs(h))
    ctx.agreed(7)
    ctx.saw((lat, lon, h))


def explore(ctx):
    lat, lon, h = grid()
    n = lat.size
    jobs = []
    for angular, length in itertools.product(["deg", "rad", "arcmin", "hourangle", "arcsec"],
                                             ["km", "m", "ft", "mi"]):
        for i in range(0, n, 1024):
            s = slice(i, i + 1024)
            jobs.append((lat[s].tolist(), lon[s].tolist(), h[s].tolist(), angular, length))
    # every batch of one and every ordered pair and triple of a small pool
    pool = [(90.0, 0.0, 500.0), (-90.0, 0.0, 0.0), (0.0, 180.0, 35786.0), (45.0, -120.0, 0.0),
            (1e-7, 10.0, 700.0), (-60.0, 30.0, 384400.0)]
    for k in (1, 2, 3):
        for combo in itertools.product(pool, repeat=k):
            jobs.append(tuple([list(c) for c in zip(*combo)]) + ("deg", "km"))
    several = 1 + 12000 // n
    jobs.append((np.tile(lat, several).tolist(), np.tile(lon, several).tolist(),
                 np.tile(h, several).tolist(), "deg", "km"))
    jobs.append(([], [], [], "deg", "km"))
    step = 1 if ctx.thorough else 7
    for i in range(0, n, step):
        jobs.append(([lat[i]], [lon[i]], [h[i]], "deg", "km"))
    if ctx.thorough:
        fine = np.array(list(itertools.product(np.arange(-90, 90.25, 0.25),
                                               [-100.0, 10.0, 170.0],
                                               [0.0, 500.0, 36000.0]))).T
        for i in range(0, fine.shape[1], 1024):
            jobs.append(tuple(a[i:i + 1024].tolist() for a in fine) + ("deg", "km"))
    ctx.note(places=n)
    ctx.sample({"latitudes": LAT, "longitudes": LON, "heights": HEIGHT})
    ctx.cases(compare, jobs, chunk=4)
    ctx.cases(via_gcrs, [(lat[::17].tolist(), lon[::17].tolist(), h[::17].tolist(), e)
                         for e in geo.EPOCHS], chunk=1)
    locations = [(a, b, c, x, y) for a in LAT for b in LON for c in HEIGHT if -20 < c < 1000
                 for x, y in (("deg", "km"), ("rad", "m"), ("arcsec", "ft"),
                              ("hourangle", "mi"))]
    ctx.cases(ground, locations, chunk=200)
