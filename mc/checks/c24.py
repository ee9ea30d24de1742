"""RequestHandler bookkeeping after every history of its operations."""
import itertools

import numpy as np

from mc import plans
from mc.core import check
from mc.env import same_place
from celest import units as u
from celest.schedule.request_handler import RequestHandler, RequestIndices
from celest.schedule.scheduling_utils import cost, is_complete
from celest.units.quantity import Quantity

PROPERTY = "C24"
LEVEL = "model_checking"
RULE = ("breadth-first search over all histories of RequestHandler operations (add, schedule and "
        "reschedule every request in every window, unschedule one or all, all six sorts) up to "
        "the depth, merging histories with equal handler state; after each transition the handler "
        "is compared field by field with a reference in which requests are records and the sorts "
        "only permute; states are handler states; long histories (hundreds of operations on up to 18 "
        "requests, and fixed ones on up to 1100 requests) follow")
ASSUMPTIONS = ["requests of equal rank may come in any order"]

REQUESTS = [
    # windows, duration, deadline, priority, quality, look
    (((0, 12), (20, 30)), 2, 40, 3, 1, None),
    (((6, 16),), 3, 40, 10, 5, 10.0),
    (((26, 36), (2, 8), (14, 22)), 1, 20, 3, 1, None),
    ((), 4, 40, 9, 2, None),
]
REQUESTS += plans.crowd(14)


class Record:
    """What the reference knows of a request: who it is and what is scheduled."""

    def __init__(self, index, windows):
        self.index = index
        self.windows = list(windows)      # in the order given; only the set is fixed
        self.plan = None                  # (window, start slot, duration slots)


class Reference:
    def __init__(self):
        self.records = {}

    def scheduled(self):
        return [r for r in self.records.values() if r.plan is not None]


def slots(window):
    return tuple(int(round((float(t.to(u.jd2000)) - plans.T0) / plans.SLOT))
                 for t in (window.rise_time, window.set_time))


def view(handler):
    """The observable state: requests in order, with their windows in order."""
    rows = []
    for i in range(handler.number_of_requests):
        index = plans.index_of(handler[i][RequestIndices.location], REQUESTS * 1)
        windows = tuple(slots(w) for w in handler.vtw_list(i))
        plan = None
        if handler.is_request_scheduled(i):
            start, duration = plans.entry_slot(handler.start_time(i),
                                               handler.scheduled_duration(i))
            plan = (windows[handler.vtw_index(i)], start, duration)
        else:
            check(handler.vtw_index(i) is None and handler.start_time(i) is None
                  and handler.scheduled_duration(i) is None,
                  "an unscheduled request keeps a plan")
        rows.append((index, windows, plan))
    return tuple(rows)


def compare(handler, reference):
    n = len(reference.records)
    check(handler.number_of_requests == n and len(handler) == n, "the number of requests drifted")
    listed = list(handler)
    check(len(listed) == n and all(a is handler[i] for i, a in enumerate(listed)),
          "iterating misses requests")
    rows = view(handler)
    check(sorted(r[0] for r in rows) == sorted(reference.records), "requests were lost: %s", rows)
    planned = 0
    for i, (index, windows, plan) in enumerate(rows):
        record = reference.records[index]
        request = REQUESTS[index]
        check(sorted(windows) == sorted(record.windows), "windows of %d were lost", index)
        check(plan == record.plan, "request %d is scheduled as %s and not %s", index, plan,
              record.plan)
        planned += plan is not None
        check(abs(plans.entry_slot(handler.deadline(i), handler.duration(i))[0] - request[2])
              < 1e-6 and abs(plans.entry_slot(handler.deadline(i), handler.duration(i))[1]
                             - request[1]) < 1e-6, "deadline or duration changed")
        check((handler.priority(i), handler.image_quality(i)) == request[3:5],
              "priority or quality changed")
        look = handler.look_angle(i)
        check((None if look is None else float(look.to(u.deg))) == request[5],
              "the look angle changed")
        check(same_place(handler[i][RequestIndices.location], plans.place_of(index)),
              "the location changed")
    check(handler.number_of_scheduled_requests == planned, "%d scheduled requests counted as %d",
          planned, handler.number_of_scheduled_requests)
    check(is_complete(handler) == (planned == n), "completeness is wrong")
    check(cost(handler) == -sum(REQUESTS[r[0]][3] for r in rows if r[2]), "the cost is wrong")
    return rows


def overlap(a, b):
    return max(0, min(a[1], b[1]) - max(a[0], b[0]))


def degree(window, rows):
    """Mean overlap with the windows it touches, itself included (slots)."""
    touching = [w for _, windows, _ in rows for w in windows
                if not (w[1] < window[0] or window[1] < w[0])]
    return sum(overlap(window, w) for w in touching) / len(touching)


def ordered(values, what, reverse=False):
    pairs = zip(values, values[1:])
    check(all((a >= b - 1e-6) if reverse else (a <= b + 1e-6) for a, b in pairs),
          "not sorted by %s: %s", what, values)


SORTS = ["sort_by_decreasing_priority", "sort_by_decreasing_opportunity",
         "sort_by_increasing_opportunity", "sort_by_decreasing_conflict_degree",
         "sort_vtws_by_increasing_conflict_degree", "sort_vtws_by_increasing_rise_time"]


def after_sort(name, rows):
    if name == "sort_by_decreasing_priority":
        ordered([REQUESTS[r[0]][3] for r in rows], "priority", True)
    elif name == "sort_by_decreasing_opportunity":
        ordered([len(r[1]) for r in rows], "opportunity", True)
    elif name == "sort_by_increasing_opportunity":
        ordered([len(r[1]) for r in rows], "opportunity")
    elif name == "sort_by_decreasing_conflict_degree":
        ordered([degree(r[2][0], rows) if r[2] else 0 for r in rows], "conflict degree", True)
    elif name == "sort_vtws_by_increasing_conflict_degree":
        for r in rows:
            ordered([degree(w, rows) for w in r[1]], "window conflict degree")
    else:
        for r in rows:
            ordered([w[0] for w in r[1]], "rise time")


def operations(reference, count):
    ops = []
    if len(reference.records) < count:
        ops.append(("add", len(reference.records)))
    for index, record in sorted(reference.records.items()):
        for k in range(len(record.windows)):
            ops.append(("schedule", index, k))
        ops.append(("unschedule", index))
    if reference.records:
        ops.append(("unschedule_all",))
    ops += [("sort", name) for name in SORTS]
    return ops


def position(handler, index):
    for i in range(handler.number_of_requests):
        if plans.index_of(handler[i][RequestIndices.location], REQUESTS) == index:
            return i
    check(False, "request %d is gone", index)


def apply(handler, reference, operation):
    kind = operation[0]
    if kind == "add":
        index = operation[1]
        plans.add(handler, index, REQUESTS[index])
        reference.records[index] = Record(index, REQUESTS[index][0])
    elif kind == "schedule":
        _, index, k = operation
        i = position(handler, index)
        record = reference.records[index]
        window = record.windows[k]
        # the handler numbers the windows in its own order
        number = [slots(w) for w in handler.vtw_list(i)].index(window)
        start = window[0] + 0.5
        handler.schedule_request(i, number, Quantity(plans.instant(start), u.jd2000),
                                 handler.duration(i))
        record.plan = (window, start, float(REQUESTS[index][1]))
    elif kind == "unschedule":
        handler.unschedule_request(position(handler, operation[1]))
        reference.records[operation[1]].plan = None
    elif kind == "unschedule_all":
        handler.unschedule_all_requests()
        for record in reference.records.values():
            record.plan = None
    else:
        getattr(handler, operation[1])()
    rows = compare(handler, reference)
    if kind == "sort":
        after_sort(operation[1], rows)
    return rows


def history(ctx, operations_):
    """Replays one history."""
    handler, reference = RequestHandler(), Reference()
    rows = compare(handler, reference)
    for operation in operations_:
        rows = apply(handler, reference, tuple(operation))
    return handler, reference, rows


def expand(ctx, path, count):
    """All successors of one state, reported as (state, path) through ctx.found."""
    _, reference, _ = history(ctx, path)
    found = []
    for operation in operations(reference, count):
        _, _, rows = history(ctx, list(path) + [operation])
        ctx.step()
        ctx.agreed(len(rows) + 1)
        ctx.state(rows)
        ctx.saw((operation[0], len(rows), sum(r[2] is not None for r in rows)))
        found.append((rows, [list(o) for o in path] + [list(operation)]))
    return found


def search(ctx, start, depth, count):
    """Breadth-first search from one history, merging equal states."""
    seen = set()
    frontier = [start]
    for level in range(depth):
        following = []
        for path in frontier:
            for rows, longer in expand(ctx, path, count):
                if rows not in seen:
                    seen.add(rows)
                    following.append(longer)
        frontier = following
    ctx.count_max(largest_frontier=len(frontier))


def walk(ctx, count, length, stride):
    """One long history over many requests."""
    handler, reference = RequestHandler(), Reference()
    for index in range(count):
        apply(handler, reference, ("add", index))
    for k in range(length):
        choices = operations(reference, count)
        if k % 5 == 4:
            choices = [o for o in choices if o[0] == "sort"]
        elif k % 5 < 3:
            choices = [o for o in choices if o[0] == "schedule"]
        rows = apply(handler, reference, choices[(k * stride + k // len(choices)) % len(choices)])
        ctx.step()
        ctx.agreed(len(rows) + 1)
        ctx.state(rows)


def multitude(ctx, count, kind):
    """A great many requests, told apart by their priorities; a dozen of them have windows."""
    handler = RequestHandler()
    place = plans.place_of(0)
    deadline, length = Quantity(plans.instant(40), u.jd2000), Quantity(plans.SECONDS, u.s)
    for k in range(count):
        spans = ((k, k + 8), (k + 10, k + 14))[:1 + k % 2] if k < 12 else ()
        handler.add_request(place, deadline, length, k, 1, None,
                            plans.window_collection(0, spans, place))
    plan = {}

    def place_in(wanted):
        for i in range(handler.number_of_requests):
            if handler.priority(i) == wanted:
                return i
        check(False, "request %d of %d is gone", wanted, count)

    def agree(what):
        check(len(handler) == count == handler.number_of_requests, "%s: %d requests of %d", what,
              len(handler), count)
        known = [handler.priority(i) for i in range(count)]
        check(sorted(known) == list(range(count)), "%s: requests were lost", what)
        check([r[RequestIndices.priority] for r in handler] == known, "%s: iterating", what)
        check(handler.number_of_scheduled_requests == len(plan), "%s: %d scheduled and not %d",
              what, handler.number_of_scheduled_requests, len(plan))
        check(cost(handler) == -sum(plan), "%s: the cost is wrong", what)
        for i, k in enumerate(known):
            check(handler.is_request_scheduled(i) == (k in plan), "%s: request %d", what, k)
            if k in plan:
                window = handler.vtw_list(i)[handler.vtw_index(i)]
                check((slots(window), handler.start_time(i)) == plan[k], "%s: plan of %d", what, k)
            spans = sorted(slots(w) for w in handler.vtw_list(i))
            check(len(spans) == (0 if k >= 12 else 1 + k % 2), "%s: windows of %d", what, k)
        return known

    for number, k in enumerate((3, 11, 0, count - 1, 7)):
        i = place_in(k)
        if k < 12:
            start = Quantity(plans.instant(k + 0.5), u.jd2000)
            handler.schedule_request(i, 0, start, length)
            plan[k] = slots(handler.vtw_list(i)[0]), start
        agree("scheduling request %d" % k)
        name = SORTS[(number + kind) % len(SORTS)]
        getattr(handler, name)()
        known = agree(name)
        if name == "sort_by_decreasing_priority":
            check(known == list(range(count))[::-1], "not sorted by priority")
        elif name == "sort_by_decreasing_opportunity":
            ordered([(k < 12) * (1 + k % 2) for k in known], "opportunity", True)
        elif name == "sort_by_increasing_opportunity":
            ordered([(k < 12) * (1 + k % 2) for k in known], "opportunity")
        ctx.step(2)
        ctx.agreed(count)
    handler.unschedule_request(place_in(11))
    del plan[11]
    agree("unscheduling")
    handler.unschedule_all_requests()
    plan.clear()
    agree("unscheduling all")
    ctx.state((count, kind))
    ctx.saw((count, kind))


def windowed(ctx, count, each, turn):
    """A great many requests, told apart by their priorities, each with windows of its own."""
    handler = RequestHandler()
    place = plans.place_of(0)
    given = []
    for k in range(count):
        # (a long window among the neighbours', then shorter ones that meet fewer)
        spans = tuple((40 * k + 3 * j * (j + k) % 37, 40 * k + 3 * j * (j + k) % 37
                       + 3 + (7 * j + k) % 60) for j in range(each))
        spans = tuple(sorted(set(spans), key=lambda w: ((w[0] * turn) % 41, w)))
        given.append(spans)
    plans.use_horizon(max(w[1] for spans in given for w in spans) + 4)
    for k, spans in enumerate(given):
        handler.add_request(place, Quantity(plans.instant(40 * count), u.jd2000),
                            Quantity(plans.SECONDS, u.s), k, 1, None,
                            plans.window_collection(0, spans, place))
    plan = {}
    for k in range(count):
        if k % 3 != turn % 3:
            number = (k // 3) % len(given[k])
            chosen = slots(handler.vtw_list(k)[number])
            handler.schedule_request(k, number, Quantity(plans.instant(chosen[0] + 1), u.jd2000),
                                     Quantity(plans.SECONDS, u.s))
            plan[k] = chosen
    every = np.array([w for spans in given for w in spans])
    for name in (SORTS[turn:] + SORTS[:turn]) * 2:
        getattr(handler, name)()
        known = [handler.priority(i) for i in range(count)]
        check(sorted(known) == list(range(count)), "%s: requests were lost", name)
        rows = []
        for i, k in enumerate(known):
            windows = [slots(w) for w in handler.vtw_list(i)]
            check(sorted(windows) == sorted(given[k]), "%s: windows of request %d", name, k)
            booked = (windows[handler.vtw_index(i)] if handler.is_request_scheduled(i) else None)
            check(booked == plan.get(k), "%s: request %d is in %s and not %s", name, k, booked,
                  plan.get(k))
            rows.append((windows, booked))

        def crowded(window):
            touching = every[(every[:, 1] >= window[0]) & (every[:, 0] <= window[1])]
            shared = np.minimum(touching[:, 1], window[1]) - np.maximum(touching[:, 0], window[0])
            return np.maximum(shared, 0).sum() / len(touching)
        if name == "sort_by_decreasing_priority":
            ordered(known, "priority", True)
        elif name == "sort_by_decreasing_opportunity":
            ordered([len(r[0]) for r in rows], "opportunity", True)
        elif name == "sort_by_increasing_opportunity":
            ordered([len(r[0]) for r in rows], "opportunity")
        elif name == "sort_by_decreasing_conflict_degree":
            ordered([crowded(r[1]) if r[1] else 0 for r in rows], "conflict degree", True)
        for windows, _ in rows:
            if name == "sort_vtws_by_increasing_conflict_degree":
                ordered([crowded(w) for w in windows], "window conflict degree")
            elif name == "sort_vtws_by_increasing_rise_time":
                ordered([w[0] for w in windows], "rise time")
        ctx.step()
        ctx.agreed(count)
        ctx.state((count, each, turn, name, tuple(known)))
    plans.use_horizon()
    ctx.saw(("windowed", count, each, turn))


def explore(ctx):
    shapes = [(60, 3), (15, 12), (4, 40), (110, 2)] + ([(240, 3), (30, 30)] if ctx.thorough else [])
    ctx.cases(windowed, [(*shape, turn) for shape in shapes for turn in range(len(SORTS))],
              chunk=1)
    counts = (60, 130, 300, 1100) if not ctx.thorough else (60, 130, 300, 1100, 3000, 11000)
    ctx.cases(multitude, [(count, kind) for count in counts for kind in range(len(SORTS))],
              chunk=1)
    ctx.case(search, [], 3, 3)
    adds = [("add", 0), ("add", 1), ("add", 2), ("add", 3)]
    # from every first pair of operations on three and four requests
    depth = 3 if not ctx.thorough else 4
    jobs = []
    for count in (2, 3, 4):
        base = adds[:count]
        reference = history(ctx, base)[1]
        for first in operations(reference, count):
            if first[0] == "schedule" or first[0] == "sort":
                jobs.append((base + [first], depth if count < 4 else depth - 1, count))
    ctx.note(depth=depth + 1, requests=[2, 3, 4])
    ctx.sample(jobs[3])
    ctx.cases(search, jobs, chunk=1)
    lengths = (60, 200) if not ctx.thorough else (60, 200, 600)
    ctx.note(longest_history=lengths[-1], most_requests=18)
    ctx.cases(walk, [(count, n, stride) for count in (5, 9, 14, 18) for n in lengths
                     for stride in (1, 7, 11)], chunk=1)
