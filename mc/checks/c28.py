"""Requests with a desired look angle start where the pitch passes that angle."""
import itertools

import numpy as np

from mc.core import check
from mc.plans import SECONDS, SLOT, T0, instant
from mc.checks.c14 import orbit
from celest import units as u
from celest.coordinates import Attitude, GCRS, GroundLocation
from celest.encounter import generate_vtws, Lighting
from celest.encounter.window_handling import VisibleTimeWindow, WindowCollection
from celest.schedule.insertion_operators import _INSERTION_FUNCTIONS, _look_angle_time
from celest.satellite import Satellite
from celest.schedule import Scheduler
from celest.schedule.request_handler import RequestHandler
from celest.units.quantity import Quantity

PROPERTY = "C28"
RULE = ("every pitch profile built from falling, flat and rising steps up to the length, every "
        "window within it and every desired angle on and between the levels is searched and then "
        "scheduled by every insertion operator; real orbits are scheduled from request to "
        "schedule; outcomes are (profile, window, angle, result)")
ASSUMPTIONS = ["a profile that ends on the side of the desired angle where it began may be "
               "searched without success, since the documented search is a bisection"]

STEP = 10.0
BEFORE, AFTER = 3, 2             # samples outside the window's pass


def crossings(pitch, rise, end, look, slack=1e-9):
    """Samples within one sample of an instant where the pitch passes the angle."""
    found = set()
    for k in range(rise, end):
        low, high = sorted((pitch[k], pitch[k + 1]))
        if low - slack <= look <= high + slack:
            found |= {k, k + 1}
    return found


def must_cross(pitch, rise, end, look):
    return (pitch[rise] - look) * (pitch[end] - look) < 0


def steps_to_profile(first, steps):
    return first + STEP * np.concatenate([[0], np.cumsum(steps)])


def wrap(pitch, angle_unit):
    scale = {"deg": 1.0, "rad": np.pi / 180}[angle_unit]
    place = GroundLocation(12.0, 34.0, 0.1, u.deg, u.km)
    slots = np.arange(len(pitch))
    zero = np.zeros(len(pitch))
    return Attitude(instant(slots), zero, np.asarray(pitch) * scale, zero,
                    getattr(u, angle_unit), place), place


def angle(value, angle_unit):
    return Quantity(value * {"deg": 1.0, "rad": np.pi / 180}[angle_unit], getattr(u, angle_unit))


def looks_for(pitch):
    levels = sorted(set(np.round(pitch, 6)))
    return sorted(set(levels) | {v + STEP / 2 for v in levels} | {levels[0] - STEP / 2})


def searched(ctx, steps, first, angle_unit, desired_unit):
    """The search alone, on every window and every angle of one profile."""
    pitch = steps_to_profile(first, steps)
    find(ctx, pitch, itertools.combinations(range(len(pitch)), 2), looks_for(pitch), angle_unit,
         desired_unit)


def searched_long(ctx, count, start, end, angle_unit, desired_unit):
    """A profile of many samples, uneven but monotone within its windows."""
    turn = np.linspace(0, 1, count)
    pitch = start + (end - start) * (turn + 0.02 * np.sin(40 * turn))
    rng = [0, 1, count // 7, count // 2 - 1, count // 2, 5 * count // 6, count - 2, count - 1]
    looks = [start, 0.0, -12.345, 7.25, 33.3, end, float(pitch[count // 3]), float(pitch[-2])]
    find(ctx, pitch, itertools.combinations(rng, 2), looks, angle_unit, desired_unit)


def find(ctx, pitch, windows, looks, angle_unit, desired_unit):
    attitude, _ = wrap(pitch, angle_unit)
    for rise, end in windows:
        for look in looks:
            found = _look_angle_time(attitude.pitch, angle(look, desired_unit), attitude.time,
                                     Quantity(instant(rise), u.jd2000),
                                     Quantity(instant(end), u.jd2000))
            ctx.agreed()
            good = crossings(pitch, rise, end, look)
            if found is None:
                check(not must_cross(pitch, rise, end, look),
                      "nothing found though the pitch %s passes %r in window %d..%d",
                      list(pitch[:40]), look, rise, end)
                ctx.saw((tuple(pitch[:60]), rise, end, look, None))
                continue
            slot = (float(found.to(u.jd2000)) - T0) / SLOT
            sample = int(round(slot))
            check(abs(slot - sample) < 1e-6 and sample in good,
                  "slot %r found though the pitch %s passes %r in window %d..%d near %s", slot,
                  list(pitch[:40]), look, rise, end, sorted(good))
            ctx.saw((tuple(pitch[:60]), rise, end, look, sample))


def scheduled(ctx, passes, gaps, look, duration, quality, deadline, angle_unit, operator):
    """One request over several passes, scheduled by one operator."""
    pitch = [70.0] * BEFORE
    windows = []
    for (first, steps), gap in zip(passes, gaps):
        part = steps_to_profile(first, steps)
        windows.append((len(pitch), len(pitch) + len(part) - 1))
        pitch += list(part) + [70.0] * gap
    pitch = np.array(pitch)
    attitude, place = wrap(pitch, angle_unit)
    collection = WindowCollection()
    for rise, end in windows:
        collection.add_window(VisibleTimeWindow(instant(rise), instant(end), attitude))
    handler = RequestHandler()
    handler.add_request(place, Quantity(instant(deadline), u.jd2000),
                        Quantity(duration * SECONDS, u.s), 3, quality, angle(look, angle_unit),
                        collection)
    _INSERTION_FUNCTIONS[operator](handler, 1)
    ctx.agreed()

    def fits(sample, window):
        rise, end = window
        if not rise < sample or not sample + duration < end or not sample + duration < deadline:
            return False
        middle = (rise + end) / 2
        return np.floor(10 - 9 * abs(sample - middle) / (middle - rise) + 1e-9) >= quality

    certain = [w for w in windows if must_cross(pitch, *w, look)
               and all(fits(s, w) for s in crossings(pitch, *w, look))]
    if not handler.is_request_scheduled(0):
        check(not certain, "not scheduled though the pitch %s passes %r within window %s",
              list(pitch), look, certain[:1])
        ctx.saw((tuple(pitch), tuple(windows), look, None))
        return
    slot = (float(handler.start_time(0).to(u.jd2000)) - T0) / SLOT
    sample = int(round(slot))
    good = [w for w in windows if sample in crossings(pitch, *w, look)
            and w[0] <= sample and sample + duration <= w[1]]
    check(abs(slot - sample) < 1e-6 and good,
          "scheduled at slot %r, where the pitch %s of windows %s does not pass %r", slot,
          list(pitch), windows, look)
    chosen = handler.vtw_list(0)[handler.vtw_index(0)]
    rise = (float(chosen.rise_time.to(u.jd2000)) - T0) / SLOT
    check(any(abs(w[0] - rise) < 1e-6 for w in good), "the window recorded rises at %r", rise)
    check(sample + duration <= deadline + 1e-6, "after the deadline")
    ctx.saw((tuple(pitch), tuple(windows), look, sample))


def requested(ctx, inclination, node, look, place):
    """From add_request to the schedule, with angles in degrees as documented."""
    step = 30.0
    times = 2460462.5 + np.arange(400) * step / 86400
    mean = np.degrees(np.sqrt(398600.4418 / 6871.0 ** 3)) * np.arange(400) * step
    position, velocity = orbit(6871.0, 0.0, inclination, node, mean % 360)
    satellite = Satellite(GCRS(times, *position.T, u.km),
                          GCRS(times, *(1000 * velocity).T, u.m / u.s))
    location = GroundLocation(*place, u.deg, u.km)
    scheduler = Scheduler(satellite, 0)
    scheduler.add_request(location, float(times[-1] + 1), 1.0, 3, 1, look, Lighting.ANYTIME)
    pitch = satellite.attitude(location).pitch.to(u.deg)
    found = [(float(w.start_time.to(u.jd2000)), float(w.attitude.pitch.to(u.deg)[0]))
             for w in scheduler.generate(0, 0.8, 0.5)]
    passes = []
    for window in generate_vtws(satellite, location, 0, Lighting.ANYTIME):
        rise, end = (int(round((float(t.to(u.jd2000)) - times[0]) * 86400 / step))
                     for t in (window.rise_time, window.set_time))
        passes.append((rise, end))
    certain = [p for p in passes if must_cross(pitch, *p, look)
               and all(p[0] < k < p[1] for k in crossings(pitch, *p, look))]
    ctx.agreed()
    check(found or not certain, "a request at %s for pitch %r is left out though the pitch passes "
          "it in samples %s", place, look, certain[:1])
    for start, exported in found:
        slot = (start - times[0]) * 86400 / step
        sample = int(round(slot))
        check(abs(slot - sample) < 1e-3 and any(
            sample in crossings(pitch, *p, look, 1e-6) for p in passes),
            "a request at %s for pitch %r starts at sample %r, where it is %s", place, look, slot,
            pitch[max(sample - 1, 0):sample + 2])
        check(abs(exported - pitch[sample]) < 1e-6, "the observation carries pitch %r and not %r",
              exported, pitch[sample])
    ctx.saw(("requested", inclination, node, look, tuple(place), tuple(found)))
    ctx.count_max(look_requests_scheduled=len(found))


def explore(ctx):
    longest = 7 if ctx.thorough else 5
    profiles = [steps for n in range(1, longest + 1)
                for steps in itertools.product((-1, 0, 1), repeat=n)]
    units = [("deg", "deg"), ("rad", "deg"), ("deg", "rad"), ("rad", "rad")]
    jobs = [(steps, first, *units[(k + j) % 4]) for k, steps in enumerate(profiles)
            for j, first in enumerate((0.0, -25.0))]
    # long monotone ones, with uneven steps
    for n in (8, 9, 13, 16, 17) + ((31,) if ctx.thorough else ()):
        for uneven in ((1, 2, 5), (7, 1), (1,), (0.3, 0, 4)):
            steps = tuple(itertools.islice(itertools.cycle(uneven), n))
            for sign in (1, -1):
                for j, pair in enumerate(units):
                    jobs.append((tuple(sign * s for s in steps), -sign * 20.0, *pair))
    ctx.note(profiles=len(jobs))
    ctx.sample(jobs[40])
    ctx.cases(searched, jobs)
    ctx.cases(searched_long, [(count, side, -side * 0.8, *units[k])
                              for count in (100, 257, 1000, 5001) for side in (50.0, -50.0)
                              for k in range(4)], chunk=1)

    n = 6 if ctx.thorough else 5
    falling = [(30.0, steps) for steps in itertools.product((-2, -1), repeat=n)]
    shapes = falling[::3] + [(-30.0, tuple(-s for s in steps)) for _, steps in falling[::5]]
    shapes += [(10.0, (0, -1, 1, -1, 1, -1)), (10.0, (1, -1, -1, -1, 1)), (40.0, (-1,) * 9)]
    work = []
    pairs = [((a,), (AFTER,)) for a in shapes] + [((a, b), (AFTER, AFTER))
                                                  for a in shapes for b in shapes[::4]]
    for k, (passes, gaps) in enumerate(pairs):
        total = BEFORE + sum(len(p[1]) + 1 + AFTER for p in passes)
        for look in np.arange(-45.0, 46.0, 5.0 if ctx.thorough else 7.5):
            for duration in (0.25, 1.5):
                for quality in (1, 6):
                    for deadline in (total + 1, total // 2):
                        work.append((passes, gaps, float(look), duration, quality, deadline,
                                     ("deg", "rad")[(k + int(look)) % 2], (k + int(look)) % 3))
    ctx.note(requests=len(work))
    ctx.cases(scheduled, work)
    few = not ctx.thorough
    ctx.cases(requested, [(inclination, float(node), look, place)
                          for inclination in ((97.4,) if few else (97.4, 51.6, 20.0))
                          for node in range(0, 360, 90 if few else 45)
                          for look in (-40.0, -12, 0.0, 5.5, 30.0)
                          for place in ((80.0, 10.0, 0.1), (0.0, 0.0, 0.0), (43.65, -79.38, 0.1),
                                        (-60.0, 130.0, 0.0))], chunk=4)
