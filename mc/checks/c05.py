"""Every chain of frame conversions leads to the same place."""
import itertools

import numpy as np

from mc import geo
from mc.core import check
from mc.env import require_close, same_place, unit
from celest import units as u
from celest.coordinates import AzEl, Coordinate, GCRS, GroundLocation, ITRS, WGS84

PROPERTY = "C05"
LEVEL = "model_checking"
RULE = ("states are (frame, batch of positions and epochs); transitions are conversions to GCRS, "
        "ITRS and WGS84 (including to the same frame); every conversion chain up to the depth "
        "bound is executed from every frame on every batch, comparing the place, the times and "
        "the order after every step with the first description of that place in that frame, and "
        "the azimuth/elevation seen from a ground location at the end")
ASSUMPTIONS = ["places from 60 km above the Earth's centre to 10^8 km away, epochs "
               "1900-2100; agreement to 1 cm (plus 1e-11 of the distance)"]

FRAMES = {"GCRS": GCRS, "ITRS": ITRS, "WGS84": WGS84}


def batches():
    """name -> (times, geodetic lat, lon, height in km)."""
    lat, lon, h, _ = geo.positions()
    result = {}
    order = np.arange(lat.size)
    times = np.array(geo.EPOCHS)[order % len(geo.EPOCHS)] + (order % 7) * 0.1371
    result["grid"] = (times, lat, lon, h)
    for e in geo.EPOCHS:
        pick = order[::13]
        result["epoch %s" % e] = (np.full(pick.size, e), lat[pick], lon[pick], h[pick])
    result["single equator"] = (np.array([2451545.0]), np.zeros(1), np.zeros(1), np.zeros(1))
    result["single pole"] = (np.array([2460000.5]), np.array([90.0]), np.zeros(1),
                             np.array([500.0]))
    result["single date line"] = (np.array([2455000.25]), np.array([-33.0]), np.array([180.0]),
                                  np.array([700.0]))
    result["pair"] = (np.array([2455000.25, 2455000.25]), np.array([51.0, -51.0]),
                      np.array([-0.5, 0.5]), np.array([400.0, 36000.0]))
    result["unordered times"] = (np.array([2459000.5, 2451545.0, 2459000.5]),
                                 np.array([10.0, 20.0, 30.0]), np.array([100.0, -170.0, 3.0]),
                                 np.array([500.0, 600.0, 700.0]))
    result["integers"] = (np.array([2459000, 2451545, 2488069]), np.array([10, -20, 90]),
                          np.array([100, -170, 3]), np.array([500, 600, 36000]))
    result["strided"] = tuple(np.repeat(a, 2)[::-2] for a in (
        np.array([2459000.5, 2451545.25, 2488069.5]), np.array([10.5, -20.0, 89.0]),
        np.array([100.0, -170.0, 3.0]), np.array([500.0, 600.0, 36000.0])))
    # a long day's work
    many = np.arange(12000)
    result["huge"] = (2451545.0 + many * 1.3, (many * 7.3) % 180 - 90, (many * 61.7) % 360 - 180,
                      (many * 37.0) % 40000)
    # deep inside the Earth, and far beyond the Moon
    some = np.arange(600)
    result["deep"] = (2451545.0 + some * 21.7, (some * 7.3) % 180.1 - 90,
                      (some * 61.7) % 360 - 180, -10.0 - (some * 41.3) % 6300)
    result["far"] = (2451545.0 + some * 21.7, (some * 7.3) % 180.1 - 90,
                     (some * 61.7) % 360 - 180, 10 ** (5 + some % 91 / 30))
    result["empty"] = tuple(np.array([]) for _ in range(4))
    return result


BATCHES = batches()
LOCATION = (43.6532, -79.3832, 0.076)


def start_frame(frame, batch, length):
    times, lat, lon, h = [np.copy(a) for a in BATCHES[batch]]
    scale = {"km": 1.0, "m": 1e3, "mi": 1000 / 1609.344, "cm": 1e5}[length]
    integers = batch == "integers"
    if frame == "WGS84":
        h = (h * scale).astype(int) if integers else h * scale
        return WGS84(times, lat, lon, h, u.deg, unit(length))
    xyz = geo.geodetic_to_itrs(lat, lon, h)
    if frame == "GCRS":
        if times.size:
            xyz = np.einsum("kji,kj->ki", geo.celestial_to_terrestrial(times), xyz)
    xyz = np.rint(xyz * scale).astype(int) if integers else xyz * scale
    if batch == "strided":
        columns = [np.repeat(c, 2)[::2] for c in xyz.T]
        return FRAMES[frame](BATCHES[batch][0], *columns, unit(length))
    return FRAMES[frame](times, xyz[:, 0].copy(), xyz[:, 1].copy(), xyz[:, 2].copy(),
                         unit(length))


def place(frame):
    """Cartesian km of a frame object in its own axes (geodetic ones through the reference)."""
    if isinstance(frame, WGS84):
        return geo.geodetic_to_itrs(frame.latitude.to(u.deg), frame.longitude.to(u.deg),
                                    frame.height.to(u.km))
    return np.stack([frame.x.to(u.km), frame.y.to(u.km), frame.z.to(u.km)], axis=-1)


def tolerance(xyz):
    return 1e-5 + 1e-11 * np.linalg.norm(xyz, axis=-1)[..., None]


def chains(ctx, frame, batch, length, depth):
    start = start_frame(frame, batch, length)
    times = BATCHES[batch][0]
    known = {frame: place(start)}
    if frame == "WGS84":
        known["ITRS"] = known["WGS84"]
    if frame == "ITRS":
        known["WGS84"] = known["ITRS"]
    location = GroundLocation(LOCATION[0], LOCATION[1], LOCATION[2], u.deg, u.km)
    seen_azel = None
    for path in itertools.chain(*[itertools.product(FRAMES, repeat=d)
                                  for d in range(1, depth + 1)]):
        current = start
        # Only the last step is new for this path; the earlier ones were checked before.
        for target in path:
            current = Coordinate(current).convert_to(FRAMES[target])
            ctx.step()
        what = "%s %s(%s) -> %s" % (batch, frame, length, " -> ".join(path))
        target = path[-1]
        check(type(current) is FRAMES[target], "%s gave a %s", what, type(current).__name__)
        check(str(current.time.unit) == "jd2000", "%s: times in %s", what, current.time.unit)
        require_close(current.time.data, times, what + ": times", rel=0)
        got = place(current)
        if target not in known:
            known[target] = got
            if target in ("ITRS", "WGS84"):
                known["ITRS"] = known["WGS84"] = got
        require_close(got, known[target], what, rel=0, abs_=tolerance(got))
        if target == "WGS84" and got.size:
            lat, lon = current.latitude.to(u.deg), current.longitude.to(u.deg)
            check(np.all(np.abs(lat) <= 90 + 1e-12) and np.all(np.abs(lon) <= 180 + 1e-12),
                  "%s: latitude or longitude out of range", what)
        if len(path) == depth:
            azel = Coordinate(current).convert_to(AzEl, location)
            ctx.step()
            check(type(azel) is AzEl and same_place(azel.location, location), "%s: AzEl location", what)
            require_close(azel.time.data, times, what + ": AzEl times", rel=0)
            here = np.stack([azel.azimuth.to(u.deg), azel.elevation.to(u.deg)], axis=-1)
            if seen_azel is None:
                seen_azel = here
            # 1 cm seen from where the sample is, and the azimuth is loose near the zenith.
            around = np.maximum(np.cos(np.radians(seen_azel[:, 1])), 1e-3)
            d = (here - seen_azel + 180) % 360 - 180
            check(np.all(np.abs(d[:, 1]) < 1e-4) and np.all(np.abs(d[:, 0]) * around < 1e-4),
                  "%s: azimuth/elevation differ by %s", what, np.max(np.abs(d), initial=0))
        ctx.state((frame, batch, length, target))
        ctx.agreed(max(1, len(times)))
        ctx.saw((batch, target))


def rejects(ctx, frame):
    start = start_frame(frame, "pair", "km")
    try:
        Coordinate(start).convert_to(AzEl)
    except ValueError:
        ctx.step()
        ctx.saw("no location")
        return
    check(False, "%s converts to AzEl without a location", frame)


def explore(ctx):
    depth = 5 if ctx.thorough else 3
    jobs = []
    for frame in FRAMES:
        ctx.case(rejects, frame)
        for batch in BATCHES:
            if batch == "empty" and frame != "ITRS":
                continue
            if batch == "huge":
                jobs.insert(0, (frame, batch, "km", 2 if frame == "GCRS" else 1))
                continue
            for length in ("km", "m", "mi", "cm"):
                if batch.startswith("epoch") and length != "km":
                    continue
                jobs.append((frame, batch, length, depth))
    ctx.note(depth=depth, batches=len(BATCHES))
    ctx.sample({"batch": "pair", "values": BATCHES["pair"]})
    ctx.sample(jobs[1])
    ctx.cases(chains, jobs, chunk=1)
