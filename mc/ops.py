"""A catalogue of the library's array operations, each from a pool of samples.

`POOL[i]` is one sample: epoch, GCRS position (km) and velocity (km/s), longitude.  An
operation takes a list of sample numbers and returns {name: array with one row per sample}.
"""
import numpy as np

from mc import geo
from celest import units as u
from celest.coordinates import AzEl, Coordinate, GCRS, GroundLocation, ITRS, WGS84
from celest.coordinates import astronomical_quantities as aq
from celest.coordinates import nutation_precession_matrices as npm
from celest.satellite import Satellite
from celest.time import Time


def orbit(radius, inclination, node, phase):
    i, n, p = np.radians([inclination, node, phase])
    rot = (np.array([[np.cos(n), -np.sin(n), 0], [np.sin(n), np.cos(n), 0], [0, 0, 1]])
           @ np.array([[1, 0, 0], [0, np.cos(i), -np.sin(i)], [0, np.sin(i), np.cos(i)]]))
    speed = np.sqrt(398600.4418 / radius)
    return (rot @ (radius * np.array([np.cos(p), np.sin(p), 0])),
            rot @ (speed * np.array([-np.sin(p), np.cos(p), 0])))


def _pool():
    rows = []
    for epoch, r, inc, node, phase, lon in (
            (2451545.0, 6778.0, 51.6, 30.0, 10.0, 0.0),
            (2455368.75, 7078.0, 98.0, 200.0, 90.0, -105.0),
            (2460462.123, 42164.0, 0.5, 0.0, 300.0, 180.0),
            (2440587.5, 6678.0, 90.0, 77.0, 90.0, -180.0),
            (2451544.9999, 26560.0, 63.4, 120.0, 271.0, 147.46),
            (2469807.3, 8000.0, 140.0, 333.0, 181.0, 359.0)):
        x, v = orbit(r, inc, node, phase)
        rows.append((epoch, x, v, lon))
    return rows


POOL = _pool()
# What becomes of every array on its way to the library: identity, unless a check says so.
STORE = [lambda array: array]


def store(array):
    return STORE[0](array)


LOCATION = (43.6532, -79.3832, 76.0)


def location():
    return GroundLocation(LOCATION[0], LOCATION[1], LOCATION[2], u.deg, u.m)


def times(index):
    return store(np.array([POOL[i][0] for i in index], dtype=float))


def longitudes(index):
    return store(np.array([POOL[i][3] for i in index], dtype=float))


def gcrs(index, velocity=False):
    rows = np.array([POOL[i][2 if velocity else 1] for i in index], dtype=float).reshape(-1, 3)
    return GCRS(times(index), *[store(rows[:, k].copy()) for k in range(3)],
                u.km / u.s if velocity else u.km)


_ITRS = {}


def itrs(index, velocity=False):
    """Terrestrial positions by the reference rotation, not by the library."""
    rows = np.array([geo.celestial_to_terrestrial(POOL[i][0]) @ POOL[i][2 if velocity else 1]
                     for i in index], dtype=float).reshape(-1, 3)
    return ITRS(times(index), *[store(rows[:, k].copy()) for k in range(3)],
                u.km / u.s if velocity else u.km)


def wgs84(index):
    xyz = np.array([geo.celestial_to_terrestrial(POOL[i][0]) @ POOL[i][1]
                    for i in index], dtype=float).reshape(-1, 3)
    if len(index):
        lat, lon, h = geo.itrs_to_geodetic(xyz)
    else:
        lat = lon = h = np.array([])
    return WGS84(times(index), store(lat), store(lon), store(h), u.deg, u.km)


def xyz(frame):
    return np.stack([frame.x.to(frame.x.unit), frame.y.to(frame.x.unit),
                     frame.z.to(frame.x.unit), frame.time.to(u.jd2000)], axis=-1)


def geodetic(frame):
    return np.stack([frame.latitude.to(u.deg), frame.longitude.to(u.deg),
                     frame.height.to(u.km), frame.time.to(u.jd2000)], axis=-1)


def horizontal(frame):
    return np.stack([frame.azimuth.to(u.deg), frame.elevation.to(u.deg),
                     frame.time.to(u.jd2000)], axis=-1)


def euler(attitude):
    return np.stack([attitude.roll.to(u.deg), attitude.pitch.to(u.deg),
                     attitude.yaw.to(u.deg), attitude.time.to(u.jd2000)], axis=-1)


def show(frame):
    if isinstance(frame, WGS84):
        return geodetic(frame)
    if isinstance(frame, AzEl):
        return horizontal(frame)
    return xyz(frame)


SOURCES = {"GCRS": gcrs, "ITRS": itrs, "WGS84": wgs84}
TARGETS = {"GCRS": GCRS, "ITRS": ITRS, "WGS84": WGS84, "AzEl": AzEl}

# {operation: (build the input objects, run on them)}
OPS = {}


def _conversions():
    for s in SOURCES:
        for t in TARGETS:
            OPS["%s->%s" % (s, t)] = (
                lambda index, s=s: {"source": SOURCES[s](index), "location": location()},
                lambda o, t=t: show(Coordinate(o["source"]).convert_to(TARGETS[t],
                                                                       o["location"])))


_conversions()


def _satellite(make):
    return lambda index: {"position": make(index), "velocity": make(index, True),
                          "location": location()}


for _name, _make in (("GCRS", gcrs), ("ITRS", itrs)):
    OPS["altitude of " + _name] = (
        _satellite(_make), lambda o: Satellite(o["position"], o["velocity"]).altitude().to(u.km))
    OPS["distance of " + _name] = (
        _satellite(_make),
        lambda o: Satellite(o["position"]).distance(o["location"]).to(u.km))
    OPS["look angle of " + _name] = (
        _satellite(_make),
        lambda o: Satellite(o["position"]).look_angle(o["location"]).to(u.deg))
    OPS["attitude of " + _name] = (
        _satellite(_make),
        lambda o: euler(Satellite(o["position"], o["velocity"]).attitude(o["location"])))


def _clock(index):
    return {"times": times(index), "longitude": longitudes(index)}


for _name in ("true_solar_time", "mean_solar_time", "true_hour_angle", "mean_hour_angle",
              "lmst", "last"):
    OPS["Time." + _name] = (
        _clock, lambda o, n=_name: getattr(Time(o["times"]), n)(o["longitude"]).to(u.hourangle))
    OPS["Time.%s, one longitude" % _name] = (
        _clock, lambda o, n=_name: getattr(Time(o["times"]), n)(-33.25).to(u.hourangle))
for _name in ("ut1", "gmst", "gast"):
    OPS["Time." + _name] = (
        _clock, lambda o, n=_name: getattr(Time(o["times"]), n)().to(u.hourangle))
OPS["Time.datetime"] = (
    _clock, lambda o: np.array([[d.year, d.month, d.day, d.hour * 3600 + d.minute * 60 + d.second
                                 + d.microsecond / 1e6]
                                for d in Time(o["times"]).datetime()]).reshape(-1, 4))


def _quantity(index):
    return {"julian": u.Quantity(times(index), u.jd2000)}


def _values(result):
    if isinstance(result, tuple):
        return np.stack([np.asarray(getattr(r, "data", r) if hasattr(r, "to") else r, float)
                         for r in result], axis=-1)
    if hasattr(result, "to"):
        return np.asarray(result.data, float)
    return np.asarray(result, float)


for _name in ("earth_rotation_angle", "nutation_angles", "nutation_components",
              "conventional_precession_angles", "mean_obliquity", "apparent_obliquity",
              "from_julian", "day_of_year", "equation_of_time", "equation_of_equinoxes",
              "sun_right_ascension"):
    OPS[_name] = (_quantity, lambda o, n=_name: _values(getattr(aq, n)(o["julian"])))
for _name in ("precession_matrix", "nutation_matrix"):
    OPS[_name] = (_quantity, lambda o, n=_name: getattr(npm, n)(o["julian"]).reshape(-1, 9))
