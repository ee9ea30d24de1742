"""Scheduling scenarios on a small exact time grid, and what a schedule of them may be.

A request is (windows, duration, deadline, priority, quality, look): windows as (rise, set)
slots in the order the satellite meets them, duration and deadline in slots, look in degrees
or None.  A slot is 2**-12 days, unless use_slots said otherwise, so that every instant is exact
next to a Julian date.
"""
import itertools

import numpy as np

from mc.core import check
from celest import units as u
from celest.coordinates import Attitude, GroundLocation, ITRS
from celest.encounter.window_handling import VisibleTimeWindow, WindowCollection
from celest.satellite import Satellite
from celest.schedule import Scheduler
from celest.schedule.request_handler import RequestHandler
from celest.units.quantity import Quantity

T0 = 2460462.5
SLOT = 2.0 ** -12                 # days
SECONDS = 86400 * SLOT
SLOTS = 40
TINY = 2e-9                       # days: a few units of a Julian date's last digit


def use_slots(days):
    """Sets the length of a slot, for the scenarios that follow in this process."""
    global SLOT, SECONDS
    SLOT, SECONDS = days, 86400 * days


def use_horizon(slots=40):
    """Sets how many slots the satellite's ephemeris has, for the scenarios that follow."""
    global SLOTS
    SLOTS = slots


def horizon(scenario):
    return max([40] + [w[1] + 4 for request in scenario for w in request[0]])


def instant(slot):
    return T0 + slot * SLOT


def latitude(index):
    return -60.0 + 7.0 * (index % 18) + 0.03125 * (index // 18)


def pitch_profile(windows):
    """Degrees per slot: falls through zero along every window, 60 outside."""
    pitch = np.full(SLOTS + 1, 60.0)
    for rise, end in windows:
        for slot in range(rise, end + 1):
            pitch[slot] = 40.0 - 80.0 * (slot - rise) / max(end - rise, 1)
    return pitch


def attitude(index, windows, place):
    slots = np.arange(SLOTS + 1)
    return Attitude(instant(slots), 0.01 * slots + index, pitch_profile(windows),
                    -0.02 * slots - index, u.deg, place)


def window_collection(index, windows, place):
    collection = WindowCollection()
    shared = attitude(index, windows, place)
    for rise, end in windows:
        collection.add_window(VisibleTimeWindow(instant(rise), instant(end), shared))
    return collection


def place_of(index):
    return GroundLocation(latitude(index), (10.0 * index + 180) % 360 - 180, 0.1, u.deg, u.km)


def add(handler, index, request, duration_unit="s"):
    windows, duration, deadline, priority, quality, look = request
    place = place_of(index)
    length = {"s": Quantity(duration * SECONDS, u.s),
              "min": Quantity(duration * SECONDS / 60, u.min)}[duration_unit]
    handler.add_request(place, Quantity(instant(deadline), u.jd2000), length, priority, quality,
                        None if look is None else Quantity(look, u.deg),
                        window_collection(index, windows, place))


def handler_of(scenario):
    handler = RequestHandler()
    for index, request in enumerate(scenario):
        add(handler, index, request)
    return handler


_SATELLITE = None


def scheduler(kind=Scheduler):
    global _SATELLITE
    if _SATELLITE is None:
        t = np.array([T0, T0 + 1])
        one = np.array([7000.0, 7000.0])
        _SATELLITE = Satellite(ITRS(t, one, 0 * one, 0 * one, u.km),
                               ITRS(t, 0 * one, one, 0 * one, u.m / u.s))
    return kind(_SATELLITE, 10)


def scheduler_of(scenario, kind=Scheduler):
    result = scheduler(kind)
    for index, request in enumerate(scenario):
        add(result.request_handler, index, request)
    return result


class Watched(Scheduler):
    """A scheduler that notes the total priority of every schedule its search builds."""

    def add_repair_functions(self, repair_functions):
        self.visited = []

        def watched(repair):
            def run(solution, *args, **kw):
                result = repair(solution, *args, **kw)
                self.visited.append(sum(
                    solution.priority(i) for i in range(solution.number_of_requests)
                    if solution.is_request_scheduled(i)))
                return result
            return run
        super().add_repair_functions([watched(f) for f in repair_functions])


# -- the reference ------------------------------------------------------------
def index_of(location, scenario):
    value = float(location.latitude.to(u.deg))
    for index in range(len(scenario)):
        if abs(value - latitude(index)) < 1e-9:
            return index
    check(False, "a window is at latitude %r, which nobody requested", value)


def quality_at(window, start):
    middle = (window[0] + window[1]) / 2
    return 10 - 9 * abs(start - middle) / (middle - window[0])


def admissible(request, start, slack=TINY / SLOT):
    """The request's windows in which an observation starting at slot `start` is allowed."""
    windows, duration, deadline, _, quality, look = request
    found = []
    for k, window in enumerate(windows):
        if not (window[0] - slack <= start and start + duration <= window[1] + slack):
            continue
        if start + duration > deadline + slack:
            continue
        if window[1] <= window[0]:
            continue
        # quality is a whole number, rounded down
        if quality_at(window, start) + 1e-4 < quality:
            continue
        if look is not None and not crosses(window, windows, start, look, slack):
            continue
        found.append(k)
    return found


def crosses(window, windows, start, look, slack):
    """The pitch passes the desired angle within a sample of the start."""
    sample = int(round(start))
    if abs(sample - start) > slack:
        return False
    pitch = pitch_profile(windows)
    near = pitch[max(sample - 1, window[0]):min(sample + 1, window[1]) + 1]
    return near.min() - 1e-9 <= look <= near.max() + 1e-9


def entry_slot(start, duration):
    return (float(start.to(u.jd2000)) - T0) / SLOT, float(duration.to(u.s)) / SECONDS


def judge(entries, scenario):
    """entries: [(index, start slot, duration slots)]; raises unless all constraints hold."""
    for index, start, duration in entries:
        request = scenario[index]
        check(abs(duration - request[1]) < 1e-6, "request %d lasts %r slots and not %r", index,
              duration, request[1])
        if admissible(request, start):
            continue
        check(any(w[0] - 1e-5 <= start and start + duration <= w[1] + 1e-5 for w in request[0]),
              "request %d is observed outside its visible windows: %r for %r", index, start,
              duration)
        check(start + duration <= request[2] + 1e-5, "request %d ends at %r after its deadline %r",
              index, start + duration, request[2])
        check(False, "request %d starts at %r against its quality or look angle", index, start)
    names = [e[0] for e in entries]
    check(len(set(names)) == len(names), "a request is observed twice: %s", sorted(names))
    for (i, a, da), (j, b, db) in itertools.combinations(entries, 2):
        apart = a + da <= b + TINY / SLOT or b + db <= a + TINY / SLOT
        check(apart, "requests %d and %d overlap: [%r, %r] and [%r, %r]", i, j, a, a + da, b,
              b + db)


def candidates(request):
    """Start slots the library considers, one per window (None: no look angle crossing)."""
    windows, duration, deadline, _, quality, look = request
    starts = []
    for rise, end in windows:
        if look is None:
            starts.append((rise + end + duration) / 2)
        else:
            pitch = pitch_profile(windows)[rise:end + 1] - look
            if pitch[0] * pitch[-1] > 0:
                starts.append(None)
                continue
            # the pitch falls: the sample before the one that reaches the angle
            k = int(np.nonzero(pitch <= 0)[0][0])
            starts.append(rise + max(k - 1, 0))
    return starts


def allowed(request, window_index, start):
    """The library's own strict admission of a candidate (exact on the grid)."""
    windows, duration, deadline, _, quality, _ = request
    rise, end = windows[window_index]
    if start is None or not (rise < start and start + duration < end):
        return False
    if not start + duration < deadline:
        return False
    return np.floor(quality_at((rise, end), start) + 1e-9) >= quality


def free(start, duration, entries):
    return all(start + duration <= b or b + db <= start for _, b, db in entries)


def insert(scenario, order, entries, limit):
    """Reference insertion: the first admissible, free window of each request in order."""
    entries = list(entries)
    taken = {e[0] for e in entries}
    for index in order:
        if not limit:
            break
        if index in taken:
            continue
        request = scenario[index]
        ranked = sorted(range(len(request[0])), key=lambda k: request[0][k][0])
        starts = candidates(request)
        for k in ranked:
            if allowed(request, k, starts[k]) and free(starts[k], request[1], entries):
                entries.append((index, starts[k], request[1]))
                limit -= 1
                break
    return entries


def gain(scenario, entries):
    return sum(scenario[i][3] for i, _, _ in entries)


def greedy_gain(scenario):
    """The least total priority of a priority-first schedule, over the order of equals."""
    total = 0
    for members in separate(scenario):
        groups = {}
        for i in members:
            groups.setdefault(-scenario[i][3], []).append(i)
        orders = itertools.product(*[itertools.permutations(groups[p]) for p in sorted(groups)])
        total += min(gain(scenario, insert(scenario, [i for part in order for i in part], [],
                                           len(scenario))) for order in orders)
    return total


def separate(scenario):
    """The requests in groups that have no instant of a window in common."""
    groups = []
    for i, request in enumerate(scenario):
        spans = list(request[0])
        group, rest = ([i], spans), []
        for other in groups:
            if any(a[0] <= b[1] and b[0] <= a[1] for a in group[1] for b in other[1]):
                group = (sorted(other[0] + group[0]), other[1] + group[1])
            else:
                rest.append(other)
        groups = rest + [group]
    return [g[0] for g in groups]


def exported(collection, scenario):
    """[(index, start, duration)] of the exported windows, and the windows themselves."""
    rows = []
    for window in collection:
        index = index_of(window.location, scenario)
        rows.append((index, *entry_slot(window.start_time, window.duration)))
    return rows


# -- scenarios ----------------------------------------------------------------
WINDOW_LISTS = [((0, 12),), ((0, 4),), ((4, 16), (20, 32)), ((0, 12), (12, 24)), ((6, 10),),
                ((2, 26),), ((14, 26), (0, 12)), ()]


def crowd(count, variant=0):
    """One scenario of many requests, no more than two of a priority."""
    scenario = []
    for i in range(count):
        windows = WINDOW_LISTS[(i * (2 * variant + 3) + variant) % len(WINDOW_LISTS)]
        shift = (i + variant) % 4
        windows = tuple((a + shift, b + shift) for a, b in windows)
        scenario.append((windows, (1, 2, 1, 3, 1.5)[(i + variant) % 5],
                         (40, 36, 40, 30)[(i + variant) % 4], 1 + (7 * i + variant) % 10,
                         (1, 1, 1, 8)[i % 4], (None, None, 10.0, None, -15.0)[(i + variant) % 5]))
    return scenario


def exchange(priority, others):
    """One long request in the way of up to three short ones that would all fit without it.

    It has a second window, too short for it, so that some operators try it last.
    """
    short = [((16, 26),), ((20, 30),), ((25, 33),)]
    return [(((0, 34), (36, 38)), 10, 40, priority, 1, None)] + [
        (windows, 2, 40, other, 1, None) for windows, other in zip(short, others)]


def patience(count, late, blocked):
    """One request of many windows, of which only one is any use to it.

    The others are too short, or taken by requests that go first.
    """
    spans = [(20 * k, 20 * k + (10 if k == late or blocked else 3)) for k in range(count)]
    end = 20 * count
    scenario = [(tuple(spans), 3, end, 2, 1, None)]
    for k in range(count if blocked else 1):
        if k != late:
            scenario.append(((spans[k],), 2 if blocked else 0.5, end, 3 + k % 8, 1, None))
    return scenario


def multitude(count, variant=0):
    """Dozens of requests in separate stretches of time, few in each."""
    stretches = -(-count // 4)
    scenario = []
    for i, (windows, duration, _, priority, quality, look) in enumerate(crowd(count, variant)):
        later = 44 * ((i * 7 + variant) % stretches)
        scenario.append((tuple((a + later, b + later) for a, b in windows), duration,
                         later + 40 if i % 3 else 44 * stretches, priority, quality, look))
    return scenario


def family(count):
    """Scenarios of `count` requests over every choice of window lists, traits varied along."""
    for k, lists in enumerate(itertools.product(WINDOW_LISTS, repeat=count)):
        scenario = []
        for i, windows in enumerate(lists):
            n = k + 3 * i
            duration = (2, 3, 1, 4, 2.5)[n % 5]
            deadline = (40, 40, 14, 24, 40, 9)[(n // 2) % 6]
            priority = (1, 5, 5, 10, 2, 1, 7)[(n + i) % 7]
            quality = (1, 1, 8, 1, 10, 5)[(n // 3) % 6]
            look = (None, None, None, 10.0, -15.0)[(n // 5) % 5]
            scenario.append((windows, duration, deadline, priority, quality, look))
        yield scenario


# -- handlers -----------------------------------------------------------------
def slots_of(window):
    return tuple(int(round((float(t.to(u.jd2000)) - T0) / SLOT))
                 for t in (window.rise_time, window.set_time))


def view(handler, scenario):
    """((index, windows in order, plan or None), ...) in the handler's order.

    A plan is (window, start slot, duration slots)."""
    from celest.schedule.request_handler import RequestIndices
    rows = []
    for i in range(handler.number_of_requests):
        index = index_of(handler[i][RequestIndices.location], scenario)
        windows = tuple(slots_of(w) for w in handler.vtw_list(i))
        plan = None
        if handler.is_request_scheduled(i):
            start, duration = entry_slot(handler.start_time(i), handler.scheduled_duration(i))
            plan = (windows[handler.vtw_index(i)], round(start, 4), round(duration, 4))
        rows.append((index, windows, plan))
    return tuple(rows)


def entries_of(rows):
    return {r[0]: r[2] for r in rows if r[2] is not None}


def conflict_degree(window, rows):
    """Mean overlap (slots) with every window it touches, itself included."""
    touching = [w for _, windows, _ in rows for w in windows
                if not (w[1] < window[0] or window[1] < w[0])]
    return sum(max(0, min(window[1], w[1]) - max(window[0], w[0]))
               for w in touching) / len(touching)


def tied_orders(items, key, reverse=False):
    """Every order of items sorted by key, equals permuted."""
    groups = {}
    for item in items:
        groups.setdefault(round(key(item), 9), []).append(item)
    parts = [list(itertools.permutations(groups[k])) for k in sorted(groups, reverse=reverse)]
    for combination in itertools.product(*parts):
        yield [item for part in combination for item in part]


def insert_rows(scenario, order, windows_of, plans_, limit):
    """Reference insertion with explicit orders; returns {index: plan}."""
    result = dict(plans_)
    for index in order:
        if not limit:
            break
        if index in result:
            continue
        request = scenario[index]
        starts = dict(zip(request[0], candidates(request)))
        numbers = {w: k for k, w in enumerate(request[0])}
        for window in windows_of[index]:
            start = starts[window]
            entries = [(i, p[1], p[2]) for i, p in result.items()]
            if allowed(request, numbers[window], start) and free(start, request[1], entries):
                result[index] = (window, round(start, 4), round(float(request[1]), 4))
                limit -= 1
                break
    return result
