"""Operations running at the same time give what they give alone, under every preemption."""
import os
import shutil
import sys
import tempfile

import numpy as np

from mc import interleave, ops, plans
from mc.checks import c10
from mc.core import HarnessError, check, pristine_all
from celest import units as u
from celest.coordinates import Coordinate, GroundLocation, ITRS
from celest.encounter.window_handling import WindowCollection
from celest.file_save import TextFileWriter
from celest.satellite import Satellite

PROPERTY = "C31"
LEVEL = "model_checking"
RULE = ("two operations of the library run in two threads under a scheduler of the check's own; "
        "for every operation, every library line it executes (told apart by its caller's line) "
        "is a point at which it is preempted and the other operation runs, on the same objects or "
        "on others; the operation is also preempted by itself, on other objects, which is preempted in turn at "
        "the same point (in the thorough tier at forty points of each, in all pairs); at every line of every operation the shared objects are looked at as well; both results have to be those the operations give alone and the shared objects "
        "what they were; states are (pair, point of preemption), transitions context switches")
ASSUMPTIONS = ["switches between two library lines only, not between the bytecodes of one line",
               "operations that change an object are not run against others on that object"]

SCENARIO = list(plans.family(3))[5]
_DIRECTORY = []


class World(c10.World):
    def __init__(self, which="first"):
        super().__init__(which)
        self.which = which
        self.attitude = self.satellite.attitude(self.location)
        self.horizontal = Coordinate(self.position).convert_to(c10.AzEl, self.location)
        self.windows = WindowCollection()
        for window in plans.window_collection(1, ((0, 12), (20, 30)), plans.place_of(1)):
            self.windows.add_window(window)
        self.metres = Satellite(in_metres(self.itrs_satellite.position, u.m),
                                in_metres(self.itrs_satellite.velocity, u.m / u.s))

    def arrays(self):
        found = super().arrays()
        for frame, names in ((self.attitude, ("roll", "pitch", "yaw", "time")),
                             (self.horizontal, ("azimuth", "elevation", "time")),
                             (self.metres.position, "xyz"), (self.metres.velocity, "xyz")):
            for name in names:
                q = getattr(frame, name)
                found.append((q.data, str(q.unit)))
        for k in range(len(self.windows)):
            for q in (self.windows[k].rise_time, self.windows[k].set_time):
                found.append((np.array([q.data]), str(q.unit)))
        return found


def in_metres(frame, unit):
    return ITRS(frame.time.data, *[q.to(unit) for q in (frame.x, frame.y, frame.z)], unit)


def saved(save, w):
    """What a save leaves under a name of this operation's own."""
    folder = tempfile.mkdtemp(dir=_DIRECTORY[0] if _DIRECTORY else None, prefix="c31-")
    try:
        save(os.path.join(folder, "data"))
        names = sorted(os.listdir(folder))
        check(names == ["data.txt"], "saving left %s", names)
        return open(os.path.join(folder, "data.txt"), encoding="utf-8").read()
    finally:
        shutil.rmtree(folder)


def writer(w, name):
    file = TextFileWriter(name, "Header " + w.which)
    file.add_layer("Layer", [["Location", str(w.location)], ["Which", w.which]],
                   [["Time", w.position.time], ["X", w.position.x]])
    file.save()


def schedule(w):
    scenario = SCENARIO if w.which == "first" else SCENARIO[::-1]
    scheduler = plans.scheduler_of(scenario)
    return str(plans.exported(scheduler.generate(0, 0.8, 0.5), scenario))


def units(w):
    speed = u.km / u.s if w.which == "first" else u.mi / u.hr
    return [str(speed * speed), repr(speed ** 2), str(2 * u.m), str(u.Quantity(3, speed)),
            u.Quantity(5.0, speed).to(u.m / u.min), (u.Quantity(5, u.km) / u.Quantity(2, u.s)
                                                     ).to(speed)]


EXTRA = {
    "save position": lambda w: saved(w.position.save_text_file, w),
    "save horizontal": lambda w: saved(w.horizontal.save_text_file, w),
    "save attitude": lambda w: saved(w.attitude.save_text_file, w),
    "save geodetic": lambda w: saved(w.frames["WGS84"].save_text_file, w),
    "save satellite": lambda w: saved(w.satellite.save_text_file, w),
    "save windows": lambda w: saved(w.windows.save_text_file, w),
    "writer": lambda w: saved(lambda name: writer(w, name), w),
    "satellite in metres": lambda w: [w.metres.altitude(), w.metres.distance(w.location),
                                      w.metres.look_angle(w.location)],
    "attitude in metres": lambda w: w.metres.attitude(w.location),
    "schedule": schedule,
    "units": units,
    "iterate": lambda w: [(a.rise_time, b.set_time) for a in w.windows for b in w.windows],
    "print windows": lambda w: str(w.windows) and [len(w.windows), w.windows[0].rise_time],
    "new location": lambda w: str(GroundLocation(*(ops.LOCATION if w.which == "first"
                                                   else (-12.5, 100.25, 10.0)), u.deg, u.m)),
}
OPS = {**{k: v for k, v in c10.OPS.items() if not k.startswith("to_numpy ")}, **EXTRA}
del OPS["satellite.altitude"], OPS["itrs_satellite.attitude"]


def flat(value):
    if isinstance(value, str):
        return [np.frombuffer(value.encode(), dtype=np.uint8)]
    if isinstance(value, (list, tuple)):
        return sum([flat(v) for v in value], [])
    return c10.arrays_of(value)


def lonely(name, which):
    return [np.array(a, copy=True) for a in flat(OPS[name](World(which)))]


_ALONE = {}
_POINTS = {}


def prepare(names):
    missing = [(n, w) for n in names for w in c10.WORLDS if (n, w) not in _ALONE]
    if missing:
        _ALONE.update(zip(missing, pristine_all(lonely, missing)))


def points(name):
    """Where the operation is preempted, and where coarsely (on entering a function)."""
    if name not in _POINTS:
        world = World("first")
        OPS[name](world)
        seen = interleave.events(lambda: OPS[name](world))
        _POINTS[name] = len(seen), interleave.first_occurrences(seen)
    return _POINTS[name]


def overlapping(ctx, first, second, shared, stops):
    """`first` is preempted at each of `stops`; second runs there; stops: (n, m) pairs."""
    prepare([first, second])
    one = World("first")
    other = one if shared else World("second")
    wanted = [_ALONE[first, "first"], _ALONE[second, other.which]]
    before = [(w, w.snapshot()) for w in ((one,) if shared else (one, other))]
    for n, m in stops:
        schedule_ = [(0, n), (1, m)] + ([(0, None)] if m is not None else [])
        results, switches = interleave.run([lambda: OPS[first](one), lambda: OPS[second](other)],
                                           schedule_)
        what = "%s preempted at line event %s by %s%s%s" % (
            first, n, second, " on the same objects" if shared else "",
            "" if m is None else " up to its event %s" % m)
        for k, name in enumerate((first, second)):
            check(c10.same_arrays(flat(results[k]), wanted[k]), "%s: the result of %s is not the "
                  "one it gives alone", what, name)
        for world, snapshot in before:
            c10.intact(snapshot, world, what)
        ctx.step(switches)
        ctx.agreed(2)
        ctx.state((first, second, shared, n, m))
        ctx.saw((first, second, shared, n, m))


def observed(ctx, name):
    """At every line of the operation the shared objects are what they were."""
    prepare([name])
    world = World("first")
    OPS[name](world)
    before = world.snapshot()
    places = {}

    def trace(frame, kind, arg):
        if not interleave.in_library(frame.f_code):
            return None
        if kind == "line":
            back = frame.f_back
            place = (frame.f_code, frame.f_lineno, back.f_lineno if back is not None else 0)
            places[place] = places.get(place, 0) + 1
            if places[place] <= 3:
                c10.intact(before, world, "%s, under way at %s:%s," % (
                    name, os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        return trace

    sys.settrace(trace)
    try:
        result = OPS[name](world)
    finally:
        sys.settrace(None)
    check(c10.same_arrays(flat(result), _ALONE[name, "first"]), "%s, watched", name)
    c10.intact(before, world, name)
    if not places:
        raise HarnessError("%s executes nothing" % name)
    ctx.step(len(places))
    ctx.agreed(len(places))
    ctx.saw((name, "observed"))


def explore(ctx):
    names = list(OPS)
    prepare(names)
    _DIRECTORY[:] = [tempfile.mkdtemp(prefix="c31-")]
    try:
        ctx.cases(observed, [(name,) for name in names], chunk=1)
        jobs, total = [], 0
        rivals = ["satellite.attitude", "units", "windows", "save attitude", "WGS84->AzEl",
                  "clock.true_hour_angle", "schedule"]
        for i, first in enumerate(names):
            _, stops = points(first)
            total += len(stops)
            partners = [(first, False), (first, True), (rivals[i % len(rivals)], False)]
            if ctx.thorough:
                partners += [(r, shared) for r in rivals for shared in (False, True)]
            for second, shared in partners:
                pairs = [(n, None) for n in stops]
                for k in range(0, len(pairs), 40):
                    jobs.append((first, second, shared, pairs[k:k + 40]))
            # two preemptions, of the operation by itself at the same point
            pairs = [(n, n) for n in stops]
            for k in range(0, len(pairs), 40):
                jobs.append((first, first, False, pairs[k:k + 40]))
            if ctx.thorough:
                # two preemptions, of the operation by itself
                coarse = stops[::max(1, len(stops) // 40)]
                pairs = [(n, m) for n in coarse for m in coarse]
                for k in range(0, len(pairs), 80):
                    jobs.append((first, first, False, pairs[k:k + 80]))
        if total < len(names):
            raise HarnessError("no points of preemption")
        ctx.note(operations=len(names), points_of_preemption=total)
        ctx.sample(jobs[10][:3])
        ctx.cases(overlapping, jobs, chunk=2)
    finally:
        shutil.rmtree(_DIRECTORY.pop())
