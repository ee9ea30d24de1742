"""Every schedule the scheduler can produce is feasible, whatever the random draws."""
import numpy as np

from mc import choices, geo, plans, requests
from mc.checks.c14 import orbit
from mc.checks.c20 import direction
from mc.core import Chooser, HarnessError, check, enumerate_choices
from mc.env import angle_difference, sun_at
from celest import units as u
from celest.coordinates import GCRS, GroundLocation
from celest.encounter import Lighting
from celest.satellite import Satellite
from celest.schedule import Scheduler

PROPERTY = "C22"
LEVEL = "model_checking"
RULE = ("for every scenario of a family (all choices of window lists for 2 and 3 requests, with "
        "varied durations, deadlines, priorities, qualities and look angles) the scheduler runs "
        "under an explorer that takes the place of the random generator and follows every "
        "sequence of draws (operators, removals, acceptances) for 0 to 2 iterations, and every "
        "sequence with a bounded number of deviations for more; each returned schedule is judged "
        "by an independent model; requests made through the public interface for ephemerides seen in "
        "prescribed runs of samples under a prescribed Sun are judged the same way; scenarios of up to 40 requests run along fixed long paths; "
        "states are schedules, transitions random draws")
ASSUMPTIONS = ["a draw from [0, 1) is represented by its two ends, which decide every "
               "acceptance either way"]


USUAL = 2.0 ** -12               # days in a slot


def run(ctx, scenario, iterations, deviations, annealing, react, judge, kind=Scheduler,
        stride=0, slot=USUAL):
    """Explores all draws of one scheduling run; judge(ctx, scheduler, collection, scenario)."""
    plans.use_slots(slot)
    scenario = [tuple(tuple(map(tuple, f)) if k == 0 else f for k, f in enumerate(r))
                for r in scenario]
    plans.use_horizon(plans.horizon(scenario))
    draws = [0]

    def execute(chooser):
        scheduler = plans.scheduler_of(scenario, kind)
        stream = choices.Draws(chooser)
        with choices.controlled(stream):
            collection = scheduler.generate(iterations, annealing, react)
        draws[0] += len(chooser.choices)
        judge(ctx, scheduler, collection, scenario)

    count, longest, complete = enumerate_choices(execute, deviations, stride=stride)
    ctx.step(draws[0])
    ctx.agreed(count)
    ctx.count_max(longest_sequence_of_draws=longest, draw_sequences_of_one_scenario=count)
    plans.use_slots(USUAL)
    plans.use_horizon()


def feasible(ctx, scheduler, collection, scenario):
    entries = plans.exported(collection, scenario)
    plans.judge(entries, scenario)
    ctx.state((scenario, sorted(entries)))
    ctx.saw(tuple(sorted(entries)))


def explored(ctx, scenario, iterations, deviations, annealing, react, stride=0,
             slot=USUAL):
    run(ctx, scenario, iterations, deviations, annealing, react, feasible, stride=stride,
        slot=slot)


def jobs(thorough):
    """(scenario, iterations, deviations, annealing, react[, stride[, days in a slot]])"""
    two, three = list(plans.family(2)), list(plans.family(3))
    result = [([r for r in plans.family(1)][k], i, None, 0.8, 0.5)
              for k in range(len(plans.WINDOW_LISTS)) for i in (0, 1, 2, 3)
              if i < 3 or thorough]
    for k, scenario in enumerate(two):
        result.append((scenario, (0, 1)[k % 8 != 0], None, 0.8, 0.5))
    for k, scenario in enumerate(three):
        result.append((scenario, 1, None, (0.8, 0.0, 1.0)[k % 3], (0.5, 1.0, 0.0)[k % 3]))
        if k % 24 == 5 or thorough and k % 3 == 0:
            result.append((scenario, 2, None, 0.8, 0.5))
        if k % 16 == 7:
            result.append((scenario, 4, 2, 0.9, 0.3))
    # observations of less than a second to several days
    for n, days in enumerate((2.0 ** -17, 2.0 ** -6, 0.25, 0.5, 4.0)):
        for k in range(n, len(three), 5 if thorough else 40):
            result.append((three[k], 1, None if thorough else 1, 0.8, 0.5, 0, days))
        for variant in range(4):
            result.append((plans.crowd(8, variant), 3, 0, 0.8, 0.5, variant, days))
    # more requests, fewer deviations
    for k in range(0, 40, 1 if thorough else 4):
        wide = three[(37 * k) % len(three)] + three[(91 * k + 13) % len(three)]
        result.append((wide, 3, 3 if thorough else 1, 0.8, 0.5))
        if thorough and k % 2:
            result.append((wide + two[k], 6, 2, 0.8, 0.5))
    # dozens of requests
    for count in (17, 24, 40) + ((70, 120) if thorough else ()):
        for variant in range(3 if count < 40 or thorough else 1):
            result.append((plans.multitude(count, variant), 2 if count < 40 else 1, 0, 0.8, 0.5,
                           variant))
    # crowded schedules: many requests, long searches that go through the draws in turn
    for count in (6, 9, 12) if not thorough else (5, 6, 7, 8, 9, 10, 12, 15, 18):
        for variant in range(4):
            scenario = plans.crowd(count, variant)
            for stride in (0, 1, 3):
                result.append((scenario, 12 if not thorough else 40, 0, 0.8, 0.5, stride))
            if thorough and count < 10:
                result.append((scenario, 6, 1, 0.8, 0.5, 1))
    return result


PLACES = [(43.65, -79.38, 0.076), (80.0, 10.0, 0.1), (85.0, 100.0, 0.1), (0.0, 0.0, 0.0),
          (60.0, -100.0, 0.3)]


def flight(ctx, inclination, node, threshold, lighting, iterations, deviations):
    """The whole way from an orbit to a schedule, judged by independent geometry."""
    step = 30.0
    times = 2460462.5 + np.arange(700) * step / 86400
    mean = np.degrees(np.sqrt(398600.4418 / 6871.0 ** 3)) * np.arange(700) * step
    position, velocity = orbit(6871.0, 0.0, inclination, node, mean % 360)
    satellite = Satellite(GCRS(times, *position.T, u.km),
                          GCRS(times, *(1000 * velocity).T, u.m / u.s))
    spun = geo.celestial_to_terrestrial(times)
    itrs = np.einsum("kij,kj->ki", spun, position)
    star = np.array([0.2, -0.93, 0.31]) * 1.496e8
    sun_itrs = np.einsum("kij,j->ki", spun, star)
    deadline = float(times[-1] - 0.02)
    wishes = [(30.0, 1, 1, None), (45.0, 5, 1, None), (20.0, 3, 1, 20.0), (60.0, 9, 2, None),
              (15.0, 2, 5, -10.0)]

    def execute(chooser):
        scheduler = Scheduler(satellite, threshold)
        with sun_at(lambda j: np.tile(star[:, None], (1, len(j)))):
            for place, (duration, priority, quality, look) in zip(PLACES, wishes):
                location = GroundLocation(*place, u.deg, u.km)
                scheduler.add_request(location, deadline, duration, priority, quality, look,
                                      Lighting(lighting))
        with choices.controlled(choices.Draws(chooser)):
            collection = scheduler.generate(iterations, 0.8, 0.5)
        entries = []
        for window in collection:
            lat = float(window.location.latitude.to(u.deg))
            index = [k for k, p in enumerate(PLACES) if abs(p[0] - lat) < 1e-9][0]
            start = float(window.start_time.to(u.jd2000))
            end = start + float(window.duration.to(u.s)) / 86400
            duration, _, _, look = wishes[index]
            check(abs((end - start) * 86400 - duration) < 1e-3, "wrong duration")
            check(end <= deadline + 1e-9, "after the deadline")
            inside = np.nonzero((times >= start - 1e-9) & (times <= end + 1e-9))[0]
            around = np.arange(max(np.searchsorted(times, start - 1e-9, "right") - 1, 0),
                               np.searchsorted(times, end + 1e-9) + 1)
            check(around[-1] < len(times), "beyond the ephemeris")
            _, elevation, _, _ = geo.azel(itrs[inside], *PLACES[index])
            check(np.all(elevation > threshold - 1e-3),
                  "the satellite is at elevation %s below the threshold %s during an observation",
                  elevation, threshold)
            if lighting:
                _, sun, _, _ = geo.azel(sun_itrs[inside], *PLACES[index])
                check(np.all(sun * lighting > -1e-2), "the Sun is at %s for rule %d", sun,
                      lighting)
            attitude = satellite.attitude(window.location)
            nearest = int(np.argmin(np.abs(times - start)))
            for name in ("roll", "pitch", "yaw"):
                got = getattr(window.attitude, name).to(u.deg)
                check(np.allclose(got, getattr(attitude, name).to(u.deg)[nearest], atol=1e-9),
                      "the exported %s is not the one at the start", name)
            if look is not None:
                pitch = attitude.pitch.to(u.deg)[max(nearest - 1, 0):nearest + 2]
                check(pitch.min() <= look <= pitch.max(), "pitch %s instead of %s", pitch, look)
            entries.append((index, start, end))
        check(len({e[0] for e in entries}) == len(entries), "a request is observed twice")
        entries.sort(key=lambda e: e[1])
        for a, b in zip(entries, entries[1:]):
            check(a[2] <= b[1] + 1e-9, "observations overlap")
        ctx.state((inclination, node, threshold, lighting, tuple(entries)))
        ctx.saw(("flight", tuple(entries)))

    count, longest, _ = enumerate_choices(execute, deviations)
    ctx.step(count * longest)
    ctx.agreed(count)


def asked(ctx, *case):
    requests.run(ctx, lambda scheduler, rows, scenario: None, *case)


def explore(ctx):
    work = jobs(ctx.thorough)
    ctx.note(scenarios=len(work))
    ctx.sample(work[100])
    # long ones first, for an even load
    work.sort(key=lambda j: (-j[1] * len(j[0]), str(j)))
    ctx.cases(explored, work, chunk=2)
    ctx.cases(asked, requests.cases(ctx.thorough), chunk=2)
    flights = [(97.4, node, thr, light, 2, 1) for node in (0.0, 120.0) for thr in (0, 10)
               for light in (0, 1, -1)]
    if ctx.thorough:
        flights = [(inc, float(node), thr, light, 2, 1) for inc in (97.4, 66.0)
                   for node in range(0, 360, 45) for thr in (0, 5, 10.5) for light in (0, 1, -1)]
        flights += [(inc, float(node), thr, light, 2, 2) for inc in (97.4, 66.0)
                    for node in range(0, 360, 90)
                    for thr, light in ((0, 1), (5, -1), (10.5, 0))]
        flights.sort(key=lambda f: -f[-1])
    ctx.cases(flight, flights, chunk=1)
