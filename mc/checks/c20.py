"""Visible time windows are exactly the maximal visible and suitably lit runs of samples."""
import itertools

import numpy as np

from mc import geo
from mc.core import Violation, check
from mc.env import same_place, sun_at
from mc.checks.c14 import orbit
from celest import units as u
from celest.coordinates import GCRS, GroundLocation, ITRS
from celest.encounter import Lighting, generate_vtws
from celest.satellite import Satellite

PROPERTY = "C20"
LEVEL = "model_checking"
RULE = ("every visibility history of up to n samples (above or below the threshold), combined with "
        "every history of the Sun (up or down) and every lighting rule, is realised by a satellite "
        "placed accordingly and a stand-in ephemeris, and the windows are compared with those of a "
        "two-state automaton reading the history; then real orbits over real places; states are "
        "(history, Sun history, rule)")
ASSUMPTIONS = ["the ephemeris file is not in the repository, so the Sun is a stand-in kernel with "
               "the real one's interface",
               "a window opens at the sample before the first visible one (the first sample if "
               "there is none) and closes at the last visible one, as the library does"]

PLACES = [(43.6532, -79.3832, 0.076), (-90.0, 0.0, 2.8), (0.0, 180.0, 0.0), (67.5, 26.6, 0.2)]


def direction(place, azimuth, elevation):
    east, north, up = geo.enu(place[0], place[1])
    a, e = np.radians(azimuth), np.radians(elevation)
    return np.cos(e) * (np.sin(a) * east + np.cos(a) * north) + np.sin(e) * up


def automaton(times, good):
    """[(rise, set)] of the maximal runs of good samples."""
    windows, rise, previous = [], None, None
    for t, is_good in zip(times, good):
        if is_good and rise is None:
            rise = previous if previous is not None else t
        if not is_good and rise is not None:
            windows.append((rise, previous))
            rise = None
        previous = t
    if rise is not None:
        windows.append((rise, previous))
    return windows


def satellite_at(place, times, elevations, frame="ITRS"):
    base = geo.geodetic_to_itrs(*place)
    rows = []
    for k, elevation in enumerate(elevations):
        # far enough below the horizon the range stays short of the Earth's far side
        rows.append(base + 900.0 * direction(place, 40.0 * k, elevation))
    rows = np.array(rows).reshape(-1, 3)
    rates = np.tile([7.0, 1.5, 0.5], (len(times), 1))
    if frame == "GCRS":
        m = geo.celestial_to_terrestrial(times)
        rows, rates = (np.einsum("kji,kj->ki", m, a) for a in (rows, rates))
        return Satellite(GCRS(times, *rows.T, u.km), GCRS(times, *rates.T, u.km / u.s))
    return Satellite(ITRS(times, *rows.T, u.km), ITRS(times, *rates.T, u.km / u.s))


def compare(ctx, windows, wanted, satellite, location, what):
    got = [(float(w.rise_time.to(u.jd2000)), float(w.set_time.to(u.jd2000))) for w in windows]
    check(len(windows) == len(wanted), "%s: %d windows %s instead of %s", what, len(windows), got,
          wanted)
    check(got == [(float(a), float(b)) for a, b in wanted], "%s: windows %s instead of %s", what,
          got, wanted)
    if len(windows):
        attitude = satellite.attitude(location)
        for w in windows:
            for name in ("roll", "pitch", "yaw", "time"):
                check(np.array_equal(getattr(w.attitude, name).data,
                                     getattr(attitude, name).data),
                      "%s: the window's %s is not the satellite's", what, name)
            check(same_place(w.attitude.location, location), "%s: location lost", what)
    ctx.agreed(1 + len(wanted))
    ctx.saw((len(wanted), tuple(got)))


def grid(n, k):
    """Uneven sampling times, with gaps of half a day and more for odd k."""
    steps = [0.001 * (1 + (i * 7 + k) % 5) + 0.6 * (k % 2 * (i % 4 == 3)) for i in range(n - 1)]
    return 2459450.85 + 0.1 * k + np.cumsum(np.array([0.0] + steps))


def history(ctx, place, threshold, seen, sun, rule):
    """seen, sun: strings over 0 and 1, one character per sample."""
    n = len(seen)
    times = grid(n, len(seen))
    margin = 0.01
    # every way of being below or above comes by
    low = [threshold - margin, -5.0, -60.0] + ([0.0] if threshold > 0.5 else [])
    high = [threshold + margin, (threshold + 90) / 2, 90.0 - 1e-3]
    elevations = [high[i % 3] if c == "1" else low[(i + n) % len(low)]
                  for i, c in enumerate(seen)]
    location = GroundLocation(*place, u.deg, u.km)
    satellite = satellite_at(place, times, elevations, "GCRS" if n % 2 else "ITRS")
    m = geo.celestial_to_terrestrial(times)
    heights = [[0.02, 40.0, 89.0], [-0.02, -40.0, -89.0]]
    lit = [direction(place, 70.0 * i, heights[0 if c == "1" else 1][i % 3])
           for i, c in enumerate(sun)]
    base = geo.geodetic_to_itrs(*place)
    suns = np.array([m[i].T @ (base + 1.496e8 * d) for i, d in enumerate(lit)])

    def positions(julian):
        return np.array([suns[np.nonzero(times == j)[0][0]] for j in julian]).T
    good = [c == "1" and (rule == 0 or (s == "1") == (rule == 1)) for c, s in zip(seen, sun)]
    with sun_at(positions):
        windows = generate_vtws(satellite, location, threshold, Lighting(rule))
        if rule == 0:
            default = generate_vtws(satellite, location, threshold)
            compare(ctx, default, automaton(times, [c == "1" for c in seen]), satellite, location,
                    "default lighting")
    ctx.state((place, threshold, seen, sun, rule))
    ctx.step(n)
    compare(ctx, windows, automaton(times, good), satellite, location,
            "seen %s, Sun %s, rule %d, threshold %s" % (seen, sun, rule, threshold))


def boundaries(ctx, threshold):
    """The threshold's own limits, and a satellite without a velocity."""
    place = PLACES[0]
    location = GroundLocation(*place, u.deg, u.km)
    times = grid(3, 0)
    satellite = satellite_at(place, times, [10.0, 60.0, 89.9])
    legal = 0 <= threshold <= 90
    try:
        windows = generate_vtws(satellite, location, threshold)
        check(legal, "threshold %r was accepted", threshold)
        compare(ctx, windows, automaton(times, [e > threshold for e in (10.0, 60.0, 89.9)]),
                satellite, location, "threshold %r" % threshold)
    except ValueError:
        check(not legal, "threshold %r was rejected", threshold)
    bare = Satellite(satellite.position)
    try:
        generate_vtws(bare, location, 10.0)
    except Warning:
        ctx.agreed()
        return
    raise Violation("windows without attitudes for a satellite without a velocity")


def flight(ctx, shape, inclination, node, place, threshold):
    times = 2460462.5 + np.arange(2000) / 1440
    mu = 398600.4418
    mean = np.degrees(np.sqrt(mu / shape[0] ** 3)) * (times - times[0]) * 86400
    position, velocity = orbit(shape[0], shape[1], inclination, node, mean % 360)
    satellite = Satellite(GCRS(times, *position.T, u.km), GCRS(times, *velocity.T, u.km / u.s))
    m = geo.celestial_to_terrestrial(times)
    itrs = np.einsum("kij,kj->ki", m, position)
    _, elevation, _, _ = geo.azel(itrs, *place)
    if np.min(np.abs(elevation - threshold)) < 0.003:
        threshold += 0.0071          # no sample may sit on the threshold
        if np.min(np.abs(elevation - threshold)) < 0.003:
            return
    location = GroundLocation(*place, u.deg, u.km)
    compare(ctx, generate_vtws(satellite, location, threshold),
            automaton(times, elevation > threshold), satellite, location,
            "orbit %s %s %s over %s" % (shape, inclination, node, place))


def explore(ctx):
    jobs = []
    depth, both = (9, 5) if not ctx.thorough else (13, 7)
    for n in range(1, depth + 1):
        for seen in itertools.product("01", repeat=n):
            jobs.append((PLACES[n % len(PLACES)], [10.0, 0.5, 45.5, 89.0][n % 4], "".join(seen),
                         "1" * n, 0))
    for n in range(1, both + 1):
        for seen in itertools.product("01", repeat=n):
            for sun in itertools.product("01", repeat=n):
                for rule in (-1, 1):
                    jobs.append((PLACES[n % len(PLACES)], [30.0, 5.0, 0.0][n % 3], "".join(seen),
                                 "".join(sun), rule))
    ctx.note(samples_any_light=depth, samples_with_sun=both)
    ctx.sample(jobs[200])
    ctx.cases(history, jobs, chunk=64)
    # long histories with up to hundreds of windows
    jobs = []
    for n in (100, 257) if not ctx.thorough else (100, 257, 600, 1500):
        for seen in ("01", "1", "10", "0110", "1" * 33 + "0", "0" * 40 + "11", "1101000"):
            for sun, rule in (("1", 0), ("0011", 1), ("0" * 21 + "1" * 13, -1)):
                jobs.append((PLACES[n % 3], 12.5, (seen * n)[:n], (sun * n)[:n], rule))
    jobs += [(PLACES[0], 12.5, (seen * 9001)[:9001], "1" * 9001, 0) for seen in ("1" * 33 + "0", "011")]
    jobs += [(PLACES[2], 12.5, seen, "1" * len(seen), 0)
             for seen in ("1" * 12000, "0" + "1" * 9000 + "01" * 30, "0" * 9000 + "1" * 2500 + "0")]
    jobs += [(PLACES[1], 12.5, (seen * 5000)[:5000], (("0" * 21 + "1" * 130) * 40)[:5000], rule)
             for seen, rule in (("1" * 700 + "0", 1), ("0" * 40 + "1" * 400, -1))]
    ctx.cases(history, jobs[::-1], chunk=1)
    for threshold in (-90, -1, -1e-9, 0, 0.0, 1e-9, 45, 89.9999, 90, 90.0001, 91, 1e9, float("nan"),
                      float("inf"), float("-inf")):
        ctx.case(boundaries, threshold)
    jobs = [(shape, inc, node, place, thr)
            for shape in ((6778.0, 0.0), (7378.0, 0.05)) for inc in (30.0, 97.5, 140.0)
            for node in (0.0, 200.0) for place in PLACES for thr in (0.0, 10.0, 30.0)]
    ctx.cases(flight, jobs, chunk=4)
