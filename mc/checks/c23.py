"""The returned schedule is the best one built: faithful, never worse than the greedy one."""
import itertools

import numpy as np

from mc import choices, plans, requests
from mc.checks import c22
from mc.core import Chooser, check, enumerate_choices
from mc.env import same_place
from celest import units as u
from celest.encounter.window_handling import ObservationWindow, WindowCollection

PROPERTY = "C23"
LEVEL = "model_checking"
RULE = ("over the scenarios and every sequence of random draws of C22, each returned schedule is "
        "compared with the requests (location, duration, attitude of the nearest sample) and its "
        "total priority with the one of a reference priority-first schedule and of every schedule "
        "the search built on its way; histories of add-request and generate calls on one "
        "scheduler are explored as well, up to two dozen calls long, and requests made by name over "
        "ephemerides seen in prescribed runs of samples under a prescribed Sun; states are schedules, transitions random draws")
ASSUMPTIONS = ["where equal priorities leave the greedy order open, the least total counts"]


def faithful(ctx, scheduler, collection, scenario):
    check(isinstance(collection, WindowCollection), "not a WindowCollection")
    rows = plans.exported(collection, scenario)
    for (index, start, duration), window in zip(rows, collection):
        check(isinstance(window, ObservationWindow), "not an ObservationWindow")
        place = plans.place_of(index)
        check(same_place(window.location, place), "the location is not the request's")
        attitude = window.attitude
        check(same_place(attitude.location, place), "the attitude is for another place")
        for name in ("roll", "pitch", "yaw", "time"):
            check(getattr(attitude, name).data.shape == (1,), "%s has not one value", name)
        slot = (float(attitude.time.to(u.jd2000)[0]) - plans.T0) / plans.SLOT
        check(abs(slot - start) <= 0.5 + 1e-6, "the attitude is from slot %r for a start at %r",
              slot, start)
        slot = int(round(slot))
        wanted = (0.01 * slot + index, plans.pitch_profile(scenario[index][0])[slot],
                  -0.02 * slot - index)
        got = tuple(float(getattr(attitude, n).to(u.deg)[0]) for n in ("roll", "pitch", "yaw"))
        check(np.allclose(got, wanted, rtol=0, atol=1e-9), "request %d has attitude %s and not %s",
              index, got, wanted)
    maximal(scenario, rows)
    total, least = plans.gain(scenario, rows), greedy(scenario)
    check(total >= least, "total priority %r, while priority-first reaches %r", total, least)
    visited = getattr(scheduler, "visited", [])
    check(total >= max(visited, default=0), "total priority %r, while the search had built "
          "schedules of %s", total, visited)
    ctx.state((scenario, sorted(rows)))
    ctx.saw((total, least, max(visited, default=0)))
    ctx.count_max(largest_improvement=total - least)


def maximal(scenario, rows):
    """No request is left out whose considered start is admissible and free."""
    for index, request in enumerate(scenario):
        if any(r[0] == index for r in rows):
            continue
        for k, start in enumerate(plans.candidates(request)):
            check(not (plans.allowed(request, k, start)
                       and plans.free(start, request[1], rows)),
                  "request %d is left out although it fits at slot %r beside %s", index, start,
                  rows)


_GREEDY = {}


def greedy(scenario):
    key = repr(scenario)
    if key not in _GREEDY:
        _GREEDY[key] = plans.greedy_gain(scenario)
    return _GREEDY[key]


def explored(ctx, scenario, iterations, deviations, annealing, react, stride=0,
             slot=c22.USUAL):
    c22.run(ctx, scenario, iterations, deviations, annealing, react, faithful, plans.Watched,
            stride, slot)


def crowded(ctx, scenario, operations, iterations):
    for stride in (0, 1, 3):
        history(ctx, scenario, operations, iterations, 0, stride)


def history(ctx, scenario, operations, iterations, deviations=None, stride=0):
    """operations: 'a' adds the next request, 'g' generates a schedule of what is there."""
    scenario = [tuple(tuple(map(tuple, f)) if k == 0 else f for k, f in enumerate(r))
                for r in scenario]

    def execute(chooser):
        scheduler = plans.scheduler()
        added = 0
        with choices.controlled(choices.Draws(chooser)):
            for operation in operations:
                if operation == "a":
                    plans.add(scheduler.request_handler, added, scenario[added],
                              ("s", "min")[added % 2])
                    added += 1
                    continue
                if not added:
                    try:
                        scheduler.generate(iterations, 0.8, 0.5)
                    except Exception as error:
                        check(type(error) is Exception, "generating from no requests raised %r",
                              error)
                        continue
                    check(False, "generating from no requests succeeded")
                collection = scheduler.generate(iterations, 0.8, 0.5)
                present = scenario[:added]
                rows = plans.exported(collection, present)
                plans.judge(rows, present)
                total = plans.gain(present, rows)
                check(total >= greedy(present),
                      "total priority %r, while priority-first reaches %r", total,
                      greedy(present))
                maximal(present, rows)
                ctx.state((scenario, operations, added, sorted(rows)))
    count, longest, _ = enumerate_choices(execute, deviations, stride=stride)
    ctx.step(count * max(longest, 1))
    ctx.agreed(count)
    ctx.saw((operations, count))


def asked(ctx, *case):
    def verdict(scheduler, rows, scenario):
        maximal(scenario, rows)
        total, least = plans.gain(scenario, rows), greedy(scenario)
        check(total >= least, "total priority %r, while priority-first reaches %r", total, least)
        check(total >= max(scheduler.visited, default=0), "total priority %r, while the search "
              "had built schedules of %s", total, scheduler.visited)
    requests.run(ctx, verdict, *case)


def explore(ctx):
    work = c22.jobs(ctx.thorough)
    ctx.note(scenarios=len(work))
    ctx.sample(work[100])
    work.sort(key=lambda j: (-j[1] * len(j[0]), str(j)))
    ctx.cases(explored, work, chunk=2)
    three = list(plans.family(3))
    sequences = ["ga", "gag", "agg", "agag", "aag", "aagg", "agaag", "aaag", "aaagg"]
    ctx.cases(history, [(three[k], ops, 1 if ops.count("g") > 1 else 2)
                        for k in range(3, 512, 64 if not ctx.thorough else 8)
                        for ops in sequences], chunk=1)
    # a dozen requests, added and scheduled a few at a time
    ctx.cases(crowded, [(plans.crowd(12, v), ops, 1 + v % 2) for v in range(4)
                        for ops in ("aaag" * 4, "ag" * 12, "a" * 12 + "ggg", "aaaaaagg" * 2)],
              chunk=1)
    # one for two or for three: every balance of priorities
    pairs = [(plans.exchange(p, q), 1, None, 0.8, 0.5) for p in range(1, 11)
             for q in itertools.combinations_with_replacement(range(1, 11), 2)]
    threes = [(plans.exchange(p, q), 1, None, 0.8, 0.5) for p in range(1, 11)
              for q in itertools.combinations_with_replacement(range(1, 11), 3)
              if ctx.thorough or abs(sum(q) - p) <= 1]
    ctx.cases(explored, pairs + threes, chunk=4)
    # many windows, all but one of them in vain
    ctx.cases(explored, [(plans.patience(n, late, blocked), 1 if n < 20 else 0, 0, 0.8, 0.5)
                         for n in (9, 14, 30, 70) for late in (n // 2, n - 1)
                         for blocked in (False, True) if n < 20 or not blocked], chunk=1)
    # through the public interface, from an ephemeris to a schedule
    ctx.cases(asked, requests.cases(ctx.thorough), chunk=2)
    # without iterations every scenario is cheap
    short = ["aaag", "agag", "aagag", "agaag", "agagag", "agg"]
    ctx.cases(history, [(scenario, ops, 0) for scenario in three for ops in short], chunk=16)
