"""A WindowCollection is a list of windows of one kind, after every sequence of operations."""
import itertools

import numpy as np

from mc import geo
from mc.core import check
from mc.env import same_place
from celest import units as u
from celest.coordinates import Attitude, GroundLocation
from celest.encounter.window_handling import (ObservationWindow, VisibleTimeWindow,
                                              WindowCollection)
from celest.units.quantity import Quantity

PROPERTY = "C21"
LEVEL = "model_checking"
RULE = ("every sequence of operations up to the depth (adding two kinds of windows, the same "
        "object twice and foreign objects; complete, abandoned and nested iteration; "
        "stepping with next(); indexing, "
        "slicing, length, printing) runs on a real collection next to a plain list; after each "
        "operation result and contents have to agree, in collections of up to 1250 windows; states are contents, transitions operations")
ASSUMPTIONS = []

PLACE = (43.6532, -79.3832, 0.076)


def windows():
    place = GroundLocation(*PLACE, u.deg, u.km)
    one = np.array([2460462.5])
    attitude = Attitude(one, np.array([1.0]), np.array([2.0]), np.array([3.0]), u.deg, place)
    visible = [VisibleTimeWindow(2460462.5 + k, 2460462.625 + k, attitude) for k in range(3)]
    observed = [ObservationWindow(Quantity(2460462.5 + k, u.jd2000), Quantity(30.0 + k, u.s),
                                  place, attitude) for k in range(3)]
    return {"v0": visible[0], "v1": visible[1], "v2": visible[2], "o0": observed[0],
            "o1": observed[1]}


FOREIGN = {"none": lambda: None, "number": lambda: 3.0, "list": lambda: [],
           "collection": WindowCollection, "class": lambda: VisibleTimeWindow}


class Reference:
    def __init__(self):
        self.items = []

    def add(self, item):
        if not isinstance(item, (VisibleTimeWindow, ObservationWindow)):
            raise TypeError
        if self.items and type(item) is not type(self.items[0]):
            raise TypeError
        self.items.append(item)


def outcome(fn):
    try:
        return "value", fn()
    except (TypeError, IndexError) as error:
        return "error", type(error)


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, str, type)) or a is None:
        return a == b
    return a is b


def abandoned(c):
    for item in c:
        return item
    return None


def steps(c):
    """One full round of next(), after whatever round was under way has ended."""
    if isinstance(c, list):
        return list(c)

    def rest():
        taken = []
        for _ in range(len(c) + 1):
            try:
                taken.append(next(c))
            except StopIteration:
                return taken
        return check(False, "next() on %d windows does not end", len(c))
    rest()
    return rest()


def nested(c):
    return [(a, b) for a in c for b in c]


READ = {
    "list": lambda c: list(c),
    "abandon": abandoned,
    "nest": nested,
    "steps": steps,
    "len": len,
    "first": lambda c: c[0],
    "last": lambda c: c[-1],
    "third": lambda c: c[2],
    "slice": lambda c: list(c[0:2]),
    "rest": lambda c: list(c[1:]),
    "backwards": lambda c: list(c[::-1]),
    "zip": lambda c: list(zip(c, c)),
}


def contents(collection):
    return [collection[i] for i in range(len(collection))]


def sequence(ctx, operations):
    pool = windows()
    collection, reference = WindowCollection(), Reference()
    other = WindowCollection()
    for operation in operations:
        ctx.step()
        if operation in READ:
            got = outcome(lambda: READ[operation](collection))
            wanted = outcome(lambda: READ[operation](reference.items))
            check(got[0] == wanted[0] and same(got[1], wanted[1]), "%s after %s: %s and not %s",
                  operation, operations, got, wanted)
        elif operation == "print":
            str(collection), repr(collection)
        else:
            item = pool[operation] if operation in pool else FOREIGN[operation]()
            got = outcome(lambda: collection.add_window(item))
            wanted = outcome(lambda: reference.add(item))
            check(got[0] == wanted[0] and same(got[1], wanted[1]),
                  "adding %s in %s: %s and not %s", operation, operations, got, wanted)
        check(same(contents(collection), reference.items), "contents after %s of %s", operation,
              operations)
        check(len(other) == 0, "collections share their windows")
        ctx.agreed(2)
        names = [k for item in reference.items for k in pool if pool[k] is item]
        ctx.state(tuple(names))
        ctx.saw((operation, got[0] if operation != "print" else "", len(names)))


def fields(ctx, rise, end, start, duration, unit_):
    """Windows give back what they were made of."""
    pool = windows()
    attitude = pool["v0"].attitude
    w = VisibleTimeWindow(rise, end, attitude)
    check(w.rise_time.to(u.jd2000) == rise and w.set_time.to(u.jd2000) == end, "times changed")
    check(w.attitude is attitude or np.array_equal(w.attitude.roll.data, attitude.roll.data),
          "attitude changed")
    place = GroundLocation(*PLACE, u.deg, u.km)
    q = Quantity(duration, u.s if unit_ == "s" else u.min)
    o = ObservationWindow(Quantity(start, u.jd2000), q, place, attitude)
    check(o.start_time.to(u.jd2000) == start, "start changed")
    check(o.duration.to(q.unit) == duration, "duration changed")
    check(same_place(o.location, place), "location changed")
    check(np.array_equal(o.attitude.pitch.data, attitude.pitch.data), "attitude changed")
    for name in ("rise_time", "set_time", "attitude"):
        try:
            setattr(w, name, None)
        except AttributeError:
            continue
        check(False, "%s can be overwritten", name)
    for name in ("start_time", "duration", "location", "attitude"):
        try:
            setattr(o, name, None)
        except AttributeError:
            continue
        check(False, "%s can be overwritten", name)
    ctx.agreed(8)
    ctx.saw(("fields", rise, end, start, duration, unit_))


def many(ctx, kind, count):
    """A long collection, read after every addition around powers of two and of ten."""
    place = GroundLocation(*PLACE, u.deg, u.km)
    attitude = windows()["v0"].attitude
    collection, reference, shown = WindowCollection(), [], None
    for k in range(count):
        if kind == "v":
            item = VisibleTimeWindow(2460462.5 + k / 64, 2460462.5 + (k + 1) / 64, attitude)
        else:
            item = ObservationWindow(Quantity(2460462.5 + k / 64, u.jd2000), Quantity(30, u.s),
                                     place, attitude)
        collection.add_window(item)
        if k % 7 == 3:
            collection.add_window(item)          # the same object again
            reference.append(item)
        reference.append(item)
        ctx.step()
        check(len(collection) == len(reference) and collection[-1] is item
              and collection[0] is reference[0], "after adding %d windows", k + 1)
        if k < 12 or k % 50 < 2 or k % 64 in (0, 1, 63):
            check(same(list(collection), reference) and same(contents(collection), reference)
                  and same(list(collection[3:40:3]), reference[3:40:3]), "%d windows", k + 1)
            check(same(steps(collection), reference) and same(steps(collection), reference),
                  "stepping through %d windows", k + 1)
            ctx.agreed(5)
    ctx.state((kind, count))
    ctx.saw((kind, count))


def explore(ctx):
    ctx.cases(many, [(kind, n) for kind in "vo" for n in (20, 120, 300, 1100)], chunk=1)
    adding = ["v0", "v1", "v2", "o0", "o1", "none", "collection"]
    reading = ["list", "abandon", "nest", "print", "steps"]
    depth = 5 if not ctx.thorough else 6
    work = []
    for n in range(1, depth + 1):
        for ops in itertools.product(adding + reading, repeat=n):
            work.append((list(ops) + list(READ),))
    # every foreign object and every read in every short history
    for n in range(0, 3):
        for ops in itertools.product(["v0", "v1", "o0"] + list(FOREIGN), repeat=n):
            for r in itertools.product(list(READ) + list(FOREIGN) + ["o1"], repeat=2):
                work.append((list(ops) + list(r),))
    ctx.note(depth=depth, operations=len(adding) + len(reading))
    ctx.sample(work[500][0])
    ctx.cases(sequence, work, chunk=256)
    for rise in (2460462.5, 2415020.25):
        for end in (rise, rise + 2.0 ** -20, rise + 1.5):
            for unit_ in ("s", "min"):
                ctx.case(fields, rise, end, rise + 0.125, 30.0, unit_)
