"""Attitudes turn the camera from nadir onto the target, in the orbit's own frame."""
import itertools

import numpy as np

from mc import geo
from mc.core import check
from mc.env import require_close, same_place, unit
from celest import units as u
from celest.coordinates import Coordinate, GCRS, GroundLocation, ITRS
from celest.satellite import Satellite

PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("every orbit of a product of inclinations (prograde, polar, retrograde, equatorial), "
        "nodes, shapes and epochs, at every anomaly of a ring, is pointed at every target of a set "
        "with ground points all over the Earth and points around the sub-satellite point; the "
        "rotation built from roll, pitch and yaw has to carry nadir onto the line of sight by the "
        "shortest way; distinct = distinct (orbit, target)")
ASSUMPTIONS = ["orbits given in GCRS (the velocity of ITRS inputs is used as given)",
               "the target's place in GCRS is the library's own conversion, decided by C05 and C06",
               "angles agree to 1e-6 degrees plus 1 mm of position"]

INCLINATIONS = [0.01, 28.5, 51.6, 90.0, 98.2, 151.0, 179.9]
NODES = [0.0, 77.0, 190.0]
SHAPES = [(6728.0, 0.0), (7378.0, 0.001), (26560.0, 0.72), (42164.0, 0.0002)]
EPOCHS = [2451545.0, 2460462.123]
ANOMALIES = [0.0, 45.0, 90.0, 133.7, 180.0, 225.0, 270.0, 359.9]
GROUND = [(90.0, 0.0, 0.0), (-90.0, 0.0, 2.8), (0.0, 0.0, 0.0), (0.0, 180.0, 0.0),
          (43.6532, -79.3832, 0.076), (-33.9, 151.2, 0.02), (31.5, 35.5, -0.43),
          # above the satellite: more than 90 degrees off nadir
          (10.0, 20.0, 9000.0), (-55.0, -130.0, 60000.0), (0.0, 100.0, 400000.0)]
OFFSETS = [(0.0, 0.0), (3.0, 0.0), (-3.0, 0.0), (0.0, 3.0), (0.0, -3.0), (0.01, 0.0), (2.0, -5.0)]


def orbit(radius, eccentricity, inclination, node, anomalies, argument=40.0):
    mu = 398600.4418
    i, n, w = np.radians([inclination, node, argument])
    e, v = eccentricity, np.radians(np.asarray(anomalies))
    p = radius * (1 - e * e)
    r = p / (1 + e * np.cos(v))
    plane = np.stack([r * np.cos(v), r * np.sin(v), 0 * v])
    speed = np.sqrt(mu / p) * np.stack([-np.sin(v), e + np.cos(v), 0 * v])

    def rz(a):
        return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
    rx = np.array([[1, 0, 0], [0, np.cos(i), -np.sin(i)], [0, np.sin(i), np.cos(i)]])
    turn = rz(n) @ rx @ rz(w)
    return (turn @ plane).T, (turn @ speed).T


def frame(rotation, angles):
    """Elementary frame rotations about axis 0, 1 or 2."""
    c, s = np.cos(angles), np.sin(angles)
    m = np.zeros((len(angles), 3, 3))
    a, b = (rotation + 1) % 3, (rotation + 2) % 3
    m[:, rotation, rotation] = 1
    m[:, a, a] = m[:, b, b] = c
    m[:, a, b] = s
    m[:, b, a] = -s
    return m


def pointing(ctx, shape, inclination, node, epoch, angular, scale, samples=None):
    anomalies = ANOMALIES if samples is None else (np.arange(samples) * 47.3) % 360
    position, velocity = orbit(*shape, inclination, node, anomalies)
    n = len(anomalies)
    times = epoch + np.arange(n) * 0.01
    speed = {"km/s": (u.km / u.s, 1.0), "m/s": (u.m / u.s, 1000.0), "m/hr": (u.m / u.hr, 3.6e6)}
    length = {"km": (u.km, 1.0), "m": (u.m, 1000.0)}
    gcrs = GCRS(times, *(position * length[scale[0]][1]).T, length[scale[0]][0])
    rates = GCRS(times, *(velocity * speed[scale[1]][1]).T, speed[scale[1]][0])
    satellite = Satellite(gcrs, rates)
    # the local vertical, local horizontal axes, by their definition
    z = -position / np.linalg.norm(position, axis=1)[:, None]
    h = np.cross(position, velocity)
    y = -h / np.linalg.norm(h, axis=1)[:, None]
    x = np.cross(y, z)
    axes = np.stack([x, y, z], axis=1)

    itrs = satellite.position
    sub = geo.itrs_to_geodetic(itrs.to_numpy(u.km))
    targets = list(GROUND)
    for k in (0, 3):
        for dlat, dlon in OFFSETS:
            lat = float(np.clip(sub[0][k] + dlat, -90, 90))
            lon = float((sub[1][k] + dlon + 180) % 360 - 180)
            targets.append((lat, lon, 0.1))
    if samples is not None:
        targets = targets[4:5] + targets[-2:]
    factor = {"deg": 1.0, "rad": np.pi / 180}[angular]
    for lat, lon, height in targets:
        if angular != "deg" and (abs(lat) == 90 or abs(lon) == 180):
            continue
        place = GroundLocation(lat * factor, lon * factor, height, unit(angular), u.km)
        attitude = satellite.attitude(place)
        check(np.array_equal(attitude.time.to(u.jd2000), times), "the times changed")
        check(same_place(attitude.location, place), "the location is lost")
        ground = np.tile(geo.geodetic_to_itrs(lat, lon, height), (n, 1))
        where = Coordinate(ITRS(times, *ground.T, u.km)).convert_to(GCRS).to_numpy(u.km)
        sight = where - position
        distance = np.linalg.norm(sight, axis=1)
        g = np.einsum("ijk,ik->ij", axes, sight / distance[:, None])
        roll, pitch, yaw = (q.to(u.rad) for q in (attitude.roll, attitude.pitch, attitude.yaw))
        check(np.all(np.isfinite(roll) & np.isfinite(pitch) & np.isfinite(yaw)),
              "attitude is not a number")
        # opposite to nadir there is no shortest rotation
        fine = g[:, 2] > -0.99
        roll, pitch, yaw, g = roll[fine], pitch[fine], yaw[fine], g[fine]
        distance = distance[fine]
        if not fine.any():
            continue
        turned = frame(2, yaw) @ frame(0, roll) @ frame(1, pitch)
        tolerance = (2e-8 + 1e-6 / distance.min()) * 2 / (1 + g[:, 2].min())
        what = "orbit %s inclination %s node %s target %s: " % (shape, inclination, node,
                                                                (lat, lon, height))
        require_close(turned[:, :, 2], g, what + "pointing direction", rel=0, abs_=tolerance)
        # the shortest rotation turns about an axis across nadir: it leaves no twist
        cosine = g[:, 2]
        require_close(np.trace(turned, axis1=1, axis2=2), 1 + 2 * cosine,
                      what + "angle of the rotation", rel=0, abs_=4 * tolerance)
        # and the off-nadir angle is the look angle, which another routine computes
        look = np.cos(satellite.look_angle(place).to(u.rad)[fine])
        require_close(np.cos(roll) * np.cos(pitch), look, what + "look angle", rel=0,
                      abs_=1e-8 + tolerance)
        ctx.agreed(3 * n)
        ctx.saw((shape, inclination, node, lat, lon))


def explore(ctx):
    jobs = []
    scales = [("km", "km/s"), ("km", "m/s"), ("m", "m/s"), ("m", "m/hr")]
    inclinations, nodes, epochs = INCLINATIONS, NODES, EPOCHS
    if ctx.thorough:
        inclinations = sorted(set(INCLINATIONS) | set(np.arange(2.5, 180, 7.5).tolist()))
        nodes = [float(x) for x in range(0, 360, 15)]
        epochs = EPOCHS + [2440587.5, 2455368.75, 2462502.9]
    for k, (shape, inc, node, epoch) in enumerate(
            itertools.product(SHAPES, inclinations, nodes, epochs)):
        jobs.append((shape, inc, node, epoch, "rad" if k % 3 == 2 else "deg", scales[k % 4]))
    jobs[:0] = [(SHAPES[1], 51.6, 77.0, EPOCHS[1], "deg", scales[0], count)
                for count in (300, 5000, 12000)]
    ctx.note(orbits=len(jobs), anomalies=len(ANOMALIES), targets=len(GROUND) + 2 * len(OFFSETS))
    ctx.sample({"shape": SHAPES[0], "inclination": INCLINATIONS[2], "targets": GROUND})
    ctx.cases(pointing, jobs, chunk=4)
