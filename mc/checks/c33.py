"""Copies and pickles give what their originals give, and go their own way afterwards."""
import copy
import itertools
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from mc import choices, ops, plans
from mc.checks import c10, c24, c31
from mc.core import HERE, Chooser, HarnessError, Violation, check, pristine_all
from mc.env import ALL_UNITS, close, unit
from celest import units as u
from celest.coordinates import Coordinate
from celest.encounter.window_handling import (ObservationWindow, VisibleTimeWindow,
                                              WindowCollection)
from celest.file_save import TextFileWriter
from celest.units.quantity import Quantity

PROPERTY = "C33"
LEVEL = "model_checking"
RULE = ("every object of a session, or one of them at a time, is replaced by a copy, a deep copy, "
        "a pickle (every protocol, in this and in another process) or copies of copies, and every "
        "operation is run on the copy and on the original in both orders; then every array of the "
        "copy is overwritten; window collections, request handlers, schedulers and report "
        "writers are copied after every history up to a depth and both sides go through every "
        "further history, each next to a reference of its own; states are (object, way, histories), "
        "transitions operations")
ASSUMPTIONS = ["a shallow copy may share its parts with the original; only its results are judged",
               "a copied unit need not cancel against the original when printed"]


def pickled(protocol):
    return lambda x: pickle.loads(pickle.dumps(x, protocol))


WAYS = {"copy": copy.copy, "deepcopy": copy.deepcopy,
        **{"pickle %d" % p: pickled(p) for p in range(pickle.HIGHEST_PROTOCOL + 1)},
        "deepcopy of a deepcopy": lambda x: copy.deepcopy(copy.deepcopy(x)),
        "pickle of a copy": lambda x: pickled(4)(copy.copy(x)),
        "copy of a pickle": lambda x: copy.copy(pickled(4)(x)),
        "deepcopy of a pickle": lambda x: copy.deepcopy(pickled(2)(x))}
APART = [name for name in WAYS if name != "copy"]
FEW = ["copy", "deepcopy", "pickle 4"]


# -- sessions of objects that do not change ---------------------------------------
class World(c31.World):
    def __init__(self, which="first"):
        super().__init__(which)
        self.coordinates = {n: Coordinate(self.frames[n]) for n in ("GCRS", "ITRS", "WGS84")}
        self.window = self.windows[1]


def converted(w, target):
    return [c.convert_to(ops.TARGETS[target], w.location) for c in w.coordinates.values()]


OPS = {**c31.OPS, **{"coordinates->" + t: lambda w, t=t: converted(w, t) for t in ops.TARGETS},
       "window": lambda w: [w.window.rise_time, w.window.set_time, w.window.attitude,
                            str(w.window.rise_time)]}
PIECES = ["frames", "position", "velocity", "satellite", "passing", "itrs_satellite", "metres", "location",
          "clock", "longitude", "julian", "attitude", "horizontal", "windows", "coordinates", "window"]


def lonely(name):
    return [np.array(a, copy=True) for a in c31.flat(OPS[name](World("first")))]


_ALONE = {}


def prepare():
    names = list(OPS)
    if not _ALONE:
        _ALONE.update(zip(names, pristine_all(lonely, [(n,) for n in names])))
    return names


def agree(world, name, what):
    check(c10.same_arrays(c31.flat(OPS[name](world)), _ALONE[name]),
          "%s: %s gives another result", what, name)


def session(ctx, way, names, piece):
    """The whole session, or one piece of it, is copied and both are used."""
    for name in names:
        original = World("first")
        if ctx.thorough or name in names[:1]:
            OPS[name](original)                   # used before it is copied
        if piece is None:
            twin = WAYS[way](original)
        else:
            twin = copy.copy(original)
            value = getattr(original, piece)
            setattr(twin, piece, {k: WAYS[way](v) for k, v in value.items()}
                    if isinstance(value, dict) else WAYS[way](value))
        before = original.snapshot(), twin.snapshot()
        what = "after %s of %s" % (way, piece or "everything")
        agree(twin, name, what + ", on the copy")
        agree(original, name, what + ", on the original")
        agree(twin, name, what + ", on the copy again")
        c10.intact(before[0], original, what)
        c10.intact(before[1], twin, what)
        if piece is None and way in APART:
            scribble(twin.arrays())
            c10.intact(before[0], original, what + " and overwriting the copy's arrays")
            agree(original, name, what + " and overwriting the copy's arrays")
        ctx.step(3)
        ctx.agreed(3)
        ctx.state((way, name, piece))
        ctx.saw((way, name, piece))


def text(value):
    return re.sub("0x[0-9a-f]+", "", str(value))


def scribble(arrays):
    for array, _ in arrays:
        try:
            array.flags.writeable = True
        except ValueError:
            continue
        array[...] = 12345


def results(ctx, way, names):
    """What an operation returns can be copied as well."""
    for name in names:
        world = World("first")
        result = OPS[name](world)
        before = [np.array(a, copy=True) for a in c31.flat(result)]
        twin = WAYS[way](result)
        check(c10.same_arrays(c31.flat(twin), before), "%s of what %s returns differs", way, name)
        check(type(twin) is type(result), "%s of what %s returns is a %s", way, name, type(twin))
        check(text(twin) == text(result), "%s of what %s returns prints as %s", way, name, twin)
        if way in APART:
            scribble([(a, "") for a in c10.arrays_of(twin)])
            check(c10.same_arrays(c31.flat(result), before),
                  "%s of what %s returns shares an array with it", way, name)
        ctx.step()
        ctx.agreed(3)
        ctx.saw((way, name))


def elsewhere(folder):
    """In another process: every operation on the session that was pickled there."""
    with open(os.path.join(folder, "session"), "rb") as file:
        worlds = pickle.load(file)
    found = {name: [np.array(a, copy=True) for a in c31.flat(op(worlds[name]))]
             for name, op in OPS.items()}
    with open(os.path.join(folder, "results"), "wb") as file:
        pickle.dump(found, file)


def process(ctx, protocol):
    folder = tempfile.mkdtemp(prefix="c33-")
    try:
        with open(os.path.join(folder, "session"), "wb") as file:
            pickle.dump({name: World("first") for name in OPS}, file, protocol)
        code = ("import sys; from mc import choices; choices.install(); "
                "from mc.checks import c33; c33.elsewhere(sys.argv[1])")
        done = subprocess.run([sys.executable, "-c", code, folder], cwd=HERE,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        check(done.returncode == 0, "a pickled session in another process: %s",
              done.stdout[-1500:])
        with open(os.path.join(folder, "results"), "rb") as file:
            found = pickle.load(file)
        for name, alone in _ALONE.items():
            check(c10.same_arrays(found[name], alone),
                  "%s gives another result on a session pickled to another process", name)
            ctx.step()
            ctx.agreed()
    finally:
        shutil.rmtree(folder)


# -- units and quantities -----------------------------------------------------------
def unit_twins(ctx, name, way):
    original, twin = unit(name), WAYS[way](unit(name))
    check(str(twin) == str(original) and twin.dimension == original.dimension,
          "%s of %s is %s of %s", way, name, twin, twin.dimension)
    for a, b in ((original, twin), (twin, original), (twin, twin)):
        check(close(Quantity(3.0, a).to(b), 3.0, 1e-12), "3 %s is not 3 of its %s", name, way)
        total = Quantity(3.0, a) + Quantity(2.0, b)
        check(close(total.to(original), 5.0, 1e-12), "3 + 2 %s (%s) is %s", name, way, total)
        check(Quantity(3.0, a) == Quantity(3.0, b), "3 %s differs from its %s", name, way)
        for power, got in ((2, a * b), (0, a / b), (-1, 1 / b), (3, a * b ** 2)):
            wanted = original ** power if power else original / original
            check(got.dimension == wanted.dimension, "%s of %s: dimension %s and not %s", way, name,
                  got.dimension, wanted.dimension)
            check(close(Quantity(1.0, got).to(wanted), 1.0, 1e-12),
                  "%s of %s: power %s has another size", way, name, power)
    for value in (3.0, 2, np.array([1.0, 2.5]), np.array([1, 2])):
        q = Quantity(value, original)
        other = WAYS[way](q)
        check(np.array_equal(other.data, value) and str(other) == str(q)
              and np.array_equal(other.to(original), q.to(original)), "%s of %s is %s", way, q,
              other)
        check(np.all((other == q) & (q == other)), "%s of %s differs", way, q)
        if way in APART and isinstance(value, np.ndarray):
            other.data[...] = 7
            check(np.array_equal(q.data, value) and not np.all(q.data == 7),
                  "%s of a quantity shares its array", way)
    ctx.step(12)
    ctx.agreed(30)
    ctx.state((name, way))
    ctx.saw((name, way))


# -- objects with a history -----------------------------------------------------------
class Collection:
    """A WindowCollection next to the list of what was added."""
    OPERATIONS = ["v0", "v1", "o0", "none", "loop", "next", "abandon"]

    def __init__(self):
        self.real, self.listed = WindowCollection(), []

    def fork(self, way):
        twin = Collection()
        twin.real, twin.listed = WAYS[way](self.real), list(self.listed)
        return twin

    def apply(self, name):
        if name in ("v0", "v1", "o0", "none"):
            kinds = {n[0] for n in self.listed}
            allowed = name != "none" and not kinds - {name[0]}
            try:
                self.real.add_window(POOL.get(name))
                check(allowed, "%s was added to %s", name, self.listed)
                self.listed.append(name)
            except TypeError:
                check(not allowed, "%s was refused by %s", name, self.listed)
        elif name == "loop":
            check(len(list(self.real)) == len(self.listed), "a loop over %s", self.listed)
        elif name == "abandon":
            for _ in self.real:
                break
        else:
            try:
                next(self.real)
            except StopIteration:
                pass

    def compare(self):
        check(len(self.real) == len(self.listed), "%d windows and not %s", len(self.real),
              self.listed)
        got = [seen(self.real[i]) for i in range(len(self.real))]
        check(got == [SEEN[n] for n in self.listed], "other windows than %s", self.listed)
        check([seen(w) for w in self.real] == got, "a loop does not go through %s", self.listed)


def seen(window):
    if isinstance(window, VisibleTimeWindow):
        return (float(window.rise_time.to(u.jd2000)), float(window.set_time.to(u.jd2000)),
                float(window.attitude.pitch.data[0]))
    return (float(window.start_time.to(u.jd2000)), float(window.duration.to(u.s)),
            float(window.location.latitude.to(u.deg)), float(window.attitude.pitch.data[0]))


def pool():
    from mc.checks import c21
    return c21.windows()


POOL = pool()
SEEN = {name: seen(window) for name, window in POOL.items()}


class Handler:
    """A RequestHandler next to the records of C24."""
    OPERATIONS = [("add",), ("schedule", 0, 0), ("schedule", 0, 1), ("schedule", 1, 0),
                  ("unschedule", 0), ("unschedule_all",), ("sort", c24.SORTS[0]),
                  ("sort", c24.SORTS[4])]

    def __init__(self):
        self.real, self.reference = c24.RequestHandler(), c24.Reference()

    def fork(self, way):
        twin = Handler()
        twin.real = WAYS[way](self.real)
        twin.reference = copy.deepcopy(self.reference)
        return twin

    def apply(self, operation):
        known = self.reference.records
        if operation[0] == "add":
            if len(known) == 3:
                return
            operation = ("add", len(known))
        elif operation[0] in ("schedule", "unschedule") and operation[1] not in known:
            return
        elif operation[0] == "unschedule_all" and not known:
            return
        c24.apply(self.real, self.reference, operation)

    def compare(self):
        c24.compare(self.real, self.reference)


SCENARIO = list(plans.family(3))[5]


class Planner:
    """A Scheduler next to the list of its requests."""
    OPERATIONS = ["request", "greedy", "search"]

    def __init__(self):
        self.real, self.count = plans.scheduler_of([]), 0

    def fork(self, way):
        twin = Planner()
        twin.real, twin.count = WAYS[way](self.real), self.count
        return twin

    @staticmethod
    def schedule(scheduler, iterations):
        with choices.controlled(choices.Draws(Chooser(()))):
            found = scheduler.generate(iterations, 0.8, 0.5)
        return sorted(plans.exported(found, SCENARIO))

    def apply(self, name):
        if name == "request":
            if self.count < len(SCENARIO):
                plans.add(self.real.request_handler, self.count, SCENARIO[self.count])
                self.count += 1
        elif self.count:
            self.schedule(self.real, 0 if name == "greedy" else 2)

    def compare(self):
        handler = self.real.request_handler
        check(handler.number_of_requests == self.count, "%d requests and not %d",
              handler.number_of_requests, self.count)
        check(self.real.visibility_threshold == 10, "the threshold changed")
        if self.count:
            got = self.schedule(self.real, 0)
            plans.judge(got, SCENARIO)
            check(plans.gain(SCENARIO, got) >= plans.greedy_gain(SCENARIO[:self.count]),
                  "a copied scheduler gives the poor schedule %s", got)


class Report:
    """A TextFileWriter next to the list of its layers."""
    OPERATIONS = ["A", "B", "C", "save"]

    def __init__(self):
        self.folder, self.layers = None, ""
        self.real = None

    def writer(self):
        if self.folder is None:
            self.folder = tempfile.mkdtemp(prefix="c33-")
        return TextFileWriter(os.path.join(self.folder, "report"), "Header")

    def fork(self, way):
        twin = Report()
        if self.real is None:
            self.real = self.writer()
        twin.real, twin.layers, twin.folder = WAYS[way](self.real), self.layers, self.folder
        return twin

    @staticmethod
    def layer(writer, name):
        k = "ABC".index(name)
        writer.add_layer("Layer " + name, [["Number", str(k)]],
                         [["Length", Quantity(np.array([1.0, 2.0 + k]), u.km)]])

    def apply(self, name):
        if self.real is None:
            self.real = self.writer()
        if name == "save":
            self.text(self.real)
        else:
            self.layer(self.real, name)
            self.layers += name

    def text(self, writer):
        writer.save()
        path = os.path.join(self.folder, "report.txt")
        with open(path) as file:
            text = file.read()
        os.remove(path)
        return text

    def compare(self):
        fresh = self.writer()
        for name in self.layers:
            self.layer(fresh, name)
        check(self.text(self.real) == self.text(fresh), "the report is not the one of layers %s",
              self.layers)

    def close(self):
        if self.folder is not None:
            shutil.rmtree(self.folder)


KINDS = {"collection": Collection, "handler": Handler, "scheduler": Planner, "writer": Report}


def forks(ctx, kind, way, prefix, lefts, rights):
    """The object is copied after `prefix`; both sides then go on by themselves."""
    for left, right in itertools.product(lefts, rights):
        original = KINDS[kind]()
        twin = None
        try:
            for operation in prefix:
                original.apply(tuple(operation) if kind == "handler" else operation)
            twin = original.fork(way)
            # in turns, so that each side moves while the other has moved
            for a, b in itertools.zip_longest(left, right):
                for side, operation in ((original, a), (twin, b)):
                    if operation is not None:
                        side.apply(tuple(operation) if kind == "handler" else operation)
                        ctx.step()
            for side, name in ((twin, "copy"), (original, "original"), (twin, "copy")):
                try:
                    side.compare()
                except Exception as error:
                    raise Violation("the %s (%s after %s, then %s on the original and %s on the "
                                    "copy): %s" % (name, way, prefix, left, right, error))
            ctx.agreed(3)
            ctx.state((kind, way, prefix, left, right))
        finally:
            if kind == "writer":
                original.close()
    ctx.saw((kind, way, len(prefix)))


def words(alphabet, depth):
    return [list(w) for n in range(depth + 1) for w in itertools.product(alphabet, repeat=n)]


def explore(ctx):
    names = prepare()
    if len(names) < 50:
        raise HarnessError("operations are missing")
    ways = list(WAYS)
    for protocol in (0, 4) if not ctx.thorough else range(pickle.HIGHEST_PROTOCOL + 1):
        ctx.case(process, protocol)
    parts = [names[k:k + 6] for k in range(0, len(names), 6)]
    ctx.cases(session, [(way, part, None) for way in ways for part in parts], chunk=2)
    ctx.cases(results, [(way, part) for way in ways for part in parts], chunk=2)
    ctx.cases(session, [(way, part, piece) for way in (FEW if not ctx.thorough else ways)
                        for piece in PIECES for part in parts], chunk=2)
    ctx.cases(unit_twins, [(name, way) for name in ALL_UNITS for way in ways], chunk=16)
    jobs = []
    for kind, cls in KINDS.items():
        # prefix, further operations on each side
        first, further = {"collection": (2, 2), "handler": (3, 1), "scheduler": (3, 1),
                          "writer": (2, 2)}[kind]
        if ctx.thorough:
            first += kind in ("collection", "writer")
            further += kind in ("handler", "scheduler")
        after = words(cls.OPERATIONS, further)
        for way in [w for w in APART if w in FEW or ctx.thorough]:
            for prefix in words(cls.OPERATIONS, first):
                jobs.append((kind, way, prefix, after, after))
    ctx.note(operations=len(names), ways=len(ways), pieces=len(PIECES), histories=len(jobs))
    ctx.sample(jobs[100][:3])
    ctx.cases(forks, jobs, chunk=4)
