"""Schedules asked for through the public interface: an ephemeris, a Sun and requests by name."""
import zlib

import numpy as np

from mc import choices, geo, plans
from mc.checks.c20 import automaton
from mc.core import check, enumerate_choices
from mc.env import same_place, sun_at
from celest import units as u
from celest.coordinates import GroundLocation, ITRS
from celest.encounter import Lighting
from celest.satellite import Satellite

CENTRES = [(12.0, 33.0), (12.0, 43.0)]
VIEWS = [(((2, 14),), ((18, 30),)), (((0, 10), (14, 30)), ((4, 24),)), (((3, 36),), ((3, 36),)),
         (((1, 5), (6, 10), (12, 20)), ((22, 34),)), (((20, 38),), ())]
SUNS = ["1" * 41, "0" * 16 + "1" * 25, "1" * 9 + "0" * 8 + "1" * 24]
THRESHOLD = 60


def near(index, shared=False):
    """Requests alternate between two places, each a kilometre from the one before, or not."""
    lat, lon = CENTRES[index % 2]
    return (lat, lon, 0.1) if shared else (lat + 0.01 * index, lon, 0.05 * index)


def sky(views):
    """A satellite seen from the two places in exactly these runs of slots."""
    times = plans.instant(np.arange(plans.SLOTS + 1))
    seen = np.zeros((2, plans.SLOTS + 1), bool)
    for group, windows in enumerate(views):
        for rise, end in windows:
            seen[group, rise + 1:end + 1] = True
    rows = []
    for first, second in seen.T:
        if first and second:
            point = (12.0, 38.0, 20000.0)
        elif first or second:
            point = (*CENTRES[0 if first else 1], 500.0)
        else:
            point = (-40.0, -100.0, 700.0)
        rows.append(geo.geodetic_to_itrs(*point))
    rates = np.tile([1.5, 6.5, 2.5], (len(times), 1))
    return Satellite(ITRS(times, *np.array(rows).T, u.km),
                     ITRS(times, *rates.T, u.km / u.s)), times, seen


def wishes(variant, count):
    """(duration, deadline, priority, quality, lighting or None) in slots."""
    def spread(i, k, values):
        return values[zlib.crc32(b"%d %d %d" % (variant, i, k)) % len(values)]
    result = []
    for i in range(count):
        result.append((spread(i, 0, (2, 3, 4, 1, 2.5)), spread(i, 1, (40, 40, 26, 40, 17)),
                       spread(i, 2, (1, 9, 4, 10, 2, 7)), spread(i, 3, (1, 2, 6, 1, 3, 9, 8)),
                       spread(i, 4, (None, 0, 1, 0, -1))))
    return result


def run(ctx, verdict, view, light, variant, count, iterations, deviations, stride=0):
    satellite, times, seen = sky(VIEWS[view])
    shining = np.array([c == "1" for c in SUNS[light]])
    towards = geo.geodetic_to_itrs(12.0, 38.0, 0.0)
    spun = geo.celestial_to_terrestrial(times)
    suns = np.array([m.T @ (towards * (2.4e4 if up else -2.4e4))
                     for m, up in zip(spun, shining)])

    def positions(julian):
        return np.array([suns[np.nonzero(times == j)[0][0]] for j in julian]).T
    wanted = wishes(variant, count)
    shared = variant % 4 == 1
    if shared:
        # the same two places, again and again: requests are told apart by their durations
        wanted = [((2, 3, 4, 1, 2.5)[(i + variant) % 5], *w[1:]) for i, w in enumerate(wanted)]
    places = [GroundLocation(*near(i, shared), u.deg, u.km) for i in range(count)]
    if shared:
        places = [places[i % 2] for i in range(count)]
    scenario = []
    for i, (duration, deadline, priority, quality, lighting) in enumerate(wanted):
        rule = 1 if lighting is None else lighting
        good = seen[i % 2] & (rule == 0 or shining == (rule == 1))
        windows = tuple((int(a), int(b)) for a, b in automaton(range(len(times)), good))
        scenario.append((windows, duration, deadline, priority, quality, None))

    def index_of(window):
        duration = float(window.duration.to(u.s)) / plans.SECONDS
        found = [i for i in range(count) if same_place(places[i], window.location)
                 and (not shared or abs(wanted[i][0] - duration) < 1e-6)]
        check(len(found) == 1, "a window of %s, which nobody requested", window)
        return found[0]

    def execute(chooser):
        scheduler = plans.Watched(satellite, THRESHOLD if variant % 2 else float(THRESHOLD))
        with sun_at(positions):
            for i, (duration, deadline, priority, quality, lighting) in enumerate(wanted):
                named = {} if lighting is None else {"lighting": Lighting(lighting)}
                place = places[i]
                if variant % 3:
                    scheduler.add_request(place, plans.instant(deadline),
                                          duration * plans.SECONDS, priority, quality, **named)
                else:
                    scheduler.add_request(
                        location=place, deadline=plans.instant(deadline), priority=priority,
                        duration=duration * plans.SECONDS, quality=quality, look_ang=None,
                        **named)
        with choices.controlled(choices.Draws(chooser)):
            collection = scheduler.generate(iterations, 0.8, 0.5)
        rows = []
        for window in collection:
            index = index_of(window)
            place = places[index]
            start, duration = plans.entry_slot(window.start_time, window.duration)
            rows.append((index, start, duration))
            check(same_place(window.location, place), "the location is not the request's")
            check(same_place(window.attitude.location, place), "the attitude is for another place")
            slot = (float(window.attitude.time.to(u.jd2000)[0]) - plans.T0) / plans.SLOT
            check(abs(slot - start) <= 0.5 + 1e-6, "the attitude is from slot %r for a start at "
                  "%r", slot, start)
            truth = satellite.attitude(place)
            for name in ("roll", "pitch", "yaw"):
                got = getattr(window.attitude, name).to(u.deg)
                check(np.allclose(got, getattr(truth, name).to(u.deg)[int(round(slot))],
                                  rtol=0, atol=1e-9), "request %d has %s %s", index, name, got)
        plans.judge(rows, scenario)
        verdict(scheduler, rows, scenario)
        ctx.state((view, light, variant, count, sorted(rows)))
        ctx.saw(("asked", tuple(sorted(rows))))

    runs, longest, _ = enumerate_choices(execute, deviations, stride=stride)
    ctx.step(runs * max(longest, 1))
    ctx.agreed(runs)


def cases(thorough):
    return [(view, light, v, 3 + (v + view) % 3, (1, 2)[(v + view) % 5 == 0], 1, v % 4)
            for view in range(len(VIEWS)) for light in range(len(SUNS))
            for v in range(96 if thorough else 24)]
