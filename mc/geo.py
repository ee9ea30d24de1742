"""Independent geodesy, Earth orientation and pointing references, and sample alphabets."""
import itertools
import math

import erfa
import numpy as np

A = 6378.137
F = 1 / 298.257223563
J2000 = 2451545.0


def geodetic_to_itrs(lat_deg, lon_deg, height_km):
    lat, lon = np.radians(np.asarray(lat_deg, float)), np.radians(np.asarray(lon_deg, float))
    h = np.asarray(height_km, float)
    e2 = F * (2 - F)
    n = A / np.sqrt(1 - e2 * np.sin(lat) ** 2)
    return np.stack([(n + h) * np.cos(lat) * np.cos(lon), (n + h) * np.cos(lat) * np.sin(lon),
                     (n * (1 - e2) + h) * np.sin(lat)], axis=-1)


def itrs_to_geodetic(xyz_km):
    """Fukushima's closed form, from ERFA."""
    lon, lat, height = erfa.gc2gde(A * 1000, F, np.asarray(xyz_km, float) * 1000)
    return np.degrees(lat), np.degrees(lon), height / 1000


def enu(lat_deg, lon_deg):
    lat, lon = math.radians(lat_deg), math.radians(lon_deg)
    east = np.array([-math.sin(lon), math.cos(lon), 0.0])
    north = np.array([-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon),
                      math.cos(lat)])
    up = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    return east, north, up


def azel(xyz_km, lat_deg, lon_deg, height_km):
    east, north, up = enu(lat_deg, lon_deg)
    d = np.asarray(xyz_km, float) - geodetic_to_itrs(lat_deg, lon_deg, height_km)
    e, n, v = d @ east, d @ north, d @ up
    return (np.degrees(np.arctan2(e, n)) % 360, np.degrees(np.arctan2(v, np.hypot(e, n))),
            np.hypot(e, n), np.linalg.norm(d, axis=-1))


def celestial_to_terrestrial(jd):
    """IAU 2006/2000A rotation GCRS -> ITRS without polar motion, all scales taken equal."""
    jd = np.asarray(jd, float)
    day = np.floor(jd)
    return erfa.c2t06a(day, jd - day, day, jd - day, 0.0, 0.0)


LATITUDES = [-90.0, -89.99, -66.5, -45.0, -23.4, -1e-7, 0.0, 1e-4, 12.5, 45.0, 60.0, 89.9999,
             90.0]
LONGITUDES = [-180.0, -179.999, -135.0, -90.0, -45.0, 0.0, 1e-6, 30.0, 90.0, 120.0, 179.5, 180.0]
HEIGHTS = [-10.0, 0.0, 0.3, 8.8, 400.0, 1200.0, 35786.0, 384400.0]
EPOCHS = [2451545.0, 2451545.5, 2440587.5, 2415020.5, 2433282.5, 2451544.9999, 2455368.75,
          2459450.85, 2460462.25, 2462502.123, 2469807.5, 2488069.5, 2434567.891]


def positions(latitudes=LATITUDES, longitudes=LONGITUDES, heights=HEIGHTS):
    lat, lon, h = np.array(list(itertools.product(latitudes, longitudes, heights))).T
    return lat, lon, h, geodetic_to_itrs(lat, lon, h)


def split(jd):
    jd = np.asarray(jd, float)
    day = np.floor(jd)
    return day, jd - day


def sun(jd):
    """Geocentric Sun of date: mean right ascension, apparent right ascension (degrees)."""
    day, part = split(jd)
    heliocentric, _ = erfa.epv00(day, part)
    v = -heliocentric["p"]
    r = np.linalg.norm(v, axis=-1)
    mean = np.einsum("ijk,ik->ij", erfa.pmat06(day, part), v)
    mean_ra = np.degrees(np.arctan2(mean[:, 1], mean[:, 0]))
    x, y, z = np.einsum("ijk,ik->ij", erfa.pnm06a(day, part), v).T
    eps = erfa.obl06(day, part) + erfa.nut06a(day, part)[1]
    yl, zl = np.cos(eps) * y + np.sin(eps) * z, -np.sin(eps) * y + np.cos(eps) * z
    lon = np.arctan2(yl, x) - np.radians(20.4955 / 3600) / r
    lat = np.arctan2(zl, np.hypot(x, yl))
    xa, ya, za = np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)
    apparent_ra = np.degrees(np.arctan2(np.cos(eps) * ya - np.sin(eps) * za, xa))
    return mean_ra % 360, apparent_ra % 360


def sidereal(jd):
    """Greenwich mean and apparent sidereal time in hours, every time scale taken equal."""
    day, part = split(jd)
    return (np.degrees(erfa.gmst06(day, part, day, part)) / 15,
            np.degrees(erfa.gst06a(day, part, day, part)) / 15)
