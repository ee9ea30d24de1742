"""Malformed calls are rejected and leave everything as it was, wherever they come in a history."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import ops, plans
from mc.checks.c14 import orbit
from mc.core import HarnessError, check
from celest import units as u
from celest.coordinates import (Attitude, AzEl, Coordinate, GCRS, GroundLocation, ITRS, LVLH,
                                WGS84)
from celest.encounter import Lighting, generate_vtws
from celest.encounter.window_handling import VisibleTimeWindow, WindowCollection
from celest.file_save import TextFileWriter
from celest.satellite import Satellite
from celest.schedule import Scheduler
from celest.time import Time
from celest.units.quantity import Quantity

PROPERTY = "C30"
LEVEL = "model_checking"
RULE = ("a session holds a satellite, frames, a clock, a location, a scheduler, a window "
        "collection and a file writer; every sequence of proper operations up to the depth is "
        "run with every malformed call in every place (and pairs of them); each malformed call has to "
        "raise the documented error at once, and the session has to end exactly as the same "
        "history without the malformed calls ends; states are histories, transitions calls")
ASSUMPTIONS = []

TIMES = 2460462.5 + np.arange(200) * 60.0 / 86400
_MEAN = np.degrees(np.sqrt(398600.4418 / 6871.0 ** 3)) * np.arange(200) * 60.0
_POSITION, _VELOCITY = orbit(6871.0, 0.0, 97.4, 40.0, _MEAN % 360)
PLACES = [(80.0, 10.0), (85.0, 100.0), (75.0, -120.0), (83.0, 60.0)]


def place(k):
    return GroundLocation(*PLACES[k], 0.1, u.deg, u.km)


class Session:
    def __init__(self):
        self.folder = tempfile.mkdtemp(prefix="c30-")
        self.satellite = Satellite(GCRS(TIMES, *_POSITION.T, u.km),
                                   GCRS(TIMES, *_VELOCITY.T, u.km / u.s))
        self.bare = Satellite(self.satellite.position)
        self.frames = {n: f([0, 3]) for n, f in ops.SOURCES.items()}
        self.place = place(0)
        self.clock = Time(ops.times([0, 1]))
        self.length, self.span = Quantity(np.array([1.0, 2.0]), u.km), Quantity(3.0, u.s)
        self.scheduler = Scheduler(self.satellite, 10)
        self.requests = 0
        self.collection = WindowCollection()
        self.foreign = None
        self.writer = TextFileWriter(os.path.join(self.folder, "layers"), "Header")
        self.layers = 0
        self.log = []

    def close(self):
        shutil.rmtree(self.folder)

    # -- proper operations -------------------------------------------------
    def request(self):
        k = self.requests % len(PLACES)
        self.scheduler.add_request(place(k), TIMES[-1], 30.0 + k, 1 + 2 * k, 1, None,
                                   Lighting.ANYTIME)
        self.requests += 1

    def generate(self):
        if not self.requests:
            return
        found = self.scheduler.generate(0, 0.8, 0.5)
        self.log.append(sorted((float(w.location.latitude.to(u.deg)),
                                float(w.start_time.to(u.jd2000)),
                                float(w.duration.to(u.s))) for w in found))
        self.observed = found

    def window(self):
        one = np.array([2460462.5])
        attitude = Attitude(one, one * 0, one * 0 + 1, one * 0 + 2, u.deg, self.place)
        k = len(self.collection)
        self.collection.add_window(VisibleTimeWindow(2460462.5 + k, 2460462.75 + k, attitude))

    def layer(self):
        self.layers += 1
        self.writer.add_layer("Layer %d" % self.layers, [["Number", str(self.layers)]],
                              [["Length", self.length]])

    def save(self):
        self.writer.save()
        if len(self.collection):
            self.collection.save_text_file(os.path.join(self.folder, "windows"))

    def observe(self):
        """Everything a user can see of the session."""
        self.save()
        self.generate()
        files = {n: open(os.path.join(self.folder, n)).read()
                 for n in sorted(os.listdir(self.folder))}
        frames = [ops.show(f).tolist() for f in self.frames.values()]
        return (self.log, files, frames, ops.xyz(self.satellite.position).tolist(),
                ops.xyz(self.satellite.velocity).tolist(), str(self.place),
                self.clock.julian.data.tolist(), self.length.data.tolist(), str(self.length.unit),
                self.span.data, str(self.span.unit), self.scheduler.visibility_threshold,
                self.scheduler.request_handler.number_of_requests,
                [float(w.rise_time.to(u.jd2000)) for w in self.collection])


PROPER = ["request", "generate", "window", "layer", "save"]

# {what: (the errors a caller may rely on, call)}
MALFORMED = {}


def malformed(name, errors, call):
    MALFORMED[name] = (errors, call)


for _n in ops.SOURCES:
    malformed("%s to AzEl without a location" % _n, ValueError,
              lambda s, n=_n: Coordinate(s.frames[n]).convert_to(AzEl))
for _name, _value in (("AzEl", lambda s: AzEl(TIMES[:2], TIMES[:2] * 0, TIMES[:2] * 0, u.deg,
                                              s.place)),
                      ("an array", lambda s: TIMES), ("nothing", lambda s: None),
                      ("LVLH", lambda s: LVLH(TIMES[:2], *[TIMES[:2]] * 3, u.km)),
                      ("a class", lambda s: GCRS)):
    malformed("a coordinate of " + _name, ValueError, lambda s, v=_value: Coordinate(v(s)))
    malformed("a satellite at " + _name, ValueError, lambda s, v=_value: Satellite(v(s)))
    if _name != "nothing":
        malformed("a satellite moving like " + _name, ValueError,
                  lambda s, v=_value: Satellite(s.frames["GCRS"], v(s)))
malformed("a satellite at WGS84", ValueError, lambda s: Satellite(s.frames["WGS84"]))
malformed("attitude without velocity", ValueError, lambda s: s.bare.attitude(s.place))
malformed("windows without velocity", Warning,
          lambda s: generate_vtws(s.bare, s.place, 10, Lighting.ANYTIME))
for _value in (-1, -1e-6, 90.000001, 1e9, float("nan"), float("inf")):
    malformed("windows above %r degrees" % _value, ValueError,
              lambda s, v=_value: generate_vtws(s.satellite, s.place, v, Lighting.ANYTIME))
for _value in (5, None, "ANYTIME", -2):
    malformed("windows in %r light" % _value, ValueError,
              lambda s, v=_value: generate_vtws(s.satellite, s.place, 10, v))
    malformed("a request in %r light" % _value, ValueError,
              lambda s, v=_value: s.scheduler.add_request(place(2), TIMES[-1], 30.0, 1, 1, None,
                                                          v))
for _value in (-1, 91, 200.0):
    malformed("a request to a scheduler above %r degrees" % _value, ValueError,
              lambda s, v=_value: Scheduler(s.satellite, v).add_request(
                  place(2), TIMES[-1], 30.0, 1, 1, None, Lighting.ANYTIME))
malformed("a request to a scheduler without velocity", Warning,
          lambda s: Scheduler(s.bare, 10).add_request(place(2), TIMES[-1], 30.0, 1, 1, None,
                                                      Lighting.ANYTIME))
malformed("a request without a place", Exception,
          lambda s: s.scheduler.add_request(None, TIMES[-1], 30.0, 1, 1, None, Lighting.ANYTIME))
for _name, _shape in (("no", ()), ("two", (2, 1)), ("three", (1, 1, 2))):
    if _shape:
        malformed("times of %s dimensions" % _name, ValueError,
                  lambda s, shape=_shape: Time(np.zeros(shape) + 2451545.0))
    for _c in (GCRS, ITRS, LVLH):
        malformed("%s of %s dimensions" % (_c.__name__, _name), ValueError,
                  lambda s, c=_c, shape=_shape: c(*[np.ones(shape)] * 4, u.km))
for _c in (GCRS, ITRS, LVLH):
    malformed("ragged " + _c.__name__, ValueError,
              lambda s, c=_c: c(TIMES[:3], TIMES[:3], TIMES[:2], TIMES[:3], u.km))
malformed("ragged WGS84", ValueError,
          lambda s: WGS84(TIMES[:2], TIMES[:2], TIMES[:2], TIMES[:3], u.deg, u.km))
malformed("ragged attitude", ValueError,
          lambda s: Attitude(TIMES[:3], TIMES[:2], TIMES[:2], TIMES[:2], u.deg, s.place))
for _lat, _lon in ((90.001, 0), (-91, 0), (0, 180.001), (0, -181), (float("nan"), 0),
                   (0, float("nan")), (float("inf"), 0)):
    malformed("a place at (%r, %r)" % (_lat, _lon), ValueError,
              lambda s, a=_lat, b=_lon: GroundLocation(a, b, 0.0, u.deg, u.km))
malformed("kilometres to seconds", ValueError, lambda s: s.length.to(u.s))
malformed("seconds to degrees", ValueError, lambda s: s.span.to(u.deg))
malformed("kilometres to kilometres per second", ValueError, lambda s: s.length.to(u.km / u.s))
for _name, _operate in (("plus", lambda a, b: a + b), ("minus", lambda a, b: a - b),
                        ("less than", lambda a, b: a < b), ("at least", lambda a, b: a >= b),
                        ("equal to", lambda a, b: a == b), ("other than", lambda a, b: a != b),
                        ("more than", lambda a, b: a > b), ("at most", lambda a, b: a <= b)):
    malformed("kilometres %s seconds" % _name, ArithmeticError,
              lambda s, o=_operate: o(s.length, s.span))
for _name, _operate in (("plus", lambda a: a + None), ("minus from", lambda a: None - a),
                        ("times", lambda a: a * "x"), ("over", lambda a: a / "x"),
                        ("below", lambda a: a < "x"), ("above", lambda a: a >= None)):
    malformed("kilometres %s nonsense" % _name, TypeError, lambda s, o=_operate: o(s.length))
for _name, _operate in (("to the power of text", lambda a: a ** "2"), ("times text", lambda a: a * "x"),
                        ("plus a unit", lambda a: a + a), ("over nothing", lambda a: a / None),
                        ("to the power of a unit", lambda a: a ** a)):
    malformed("a unit " + _name, TypeError, lambda s, o=_operate: o(u.km))
    malformed("a compound " + _name, TypeError, lambda s, o=_operate: o(u.km / u.s))
for _name, _value in (("nothing", None), ("a number", 3.0), ("a list", []),
                      ("a collection", WindowCollection()), ("a class", VisibleTimeWindow)):
    malformed("collecting " + _name, TypeError,
              lambda s, v=_value: s.collection.add_window(v))


def mixed(s):
    """A window of the other kind, into a collection that is not empty."""
    found = WindowCollection()
    from celest.encounter.window_handling import ObservationWindow
    one = np.array([2460462.5])
    attitude = Attitude(one, one * 0, one * 0 + 1, one * 0 + 2, u.deg, s.place)
    other = ObservationWindow(Quantity(2460462.5, u.jd2000), Quantity(3.0, u.s), s.place,
                              attitude)
    if not len(s.collection):
        found.add_window(VisibleTimeWindow(2460462.5, 2460462.75, attitude))
        found.add_window(other)
    s.collection.add_window(other)


malformed("collecting the other kind", TypeError, mixed)
malformed("the hundredth window", IndexError, lambda s: s.collection[100])
malformed("the hundredth window from the end", IndexError, lambda s: s.collection[-100])
malformed("saving no windows", Exception,
          lambda s: WindowCollection().save_text_file(os.path.join(s.folder, "empty")))
malformed("scheduling nothing", Exception,
          lambda s: Scheduler(s.satellite, 10).generate(3, 0.8, 0.5))
for _name, _value in (("a position", lambda s: s.frames["GCRS"]), ("nothing", lambda s: None),
                      ("the class", lambda s: Satellite)):
    malformed("a scheduler for " + _name, TypeError, lambda s, v=_value: Scheduler(v(s), 10))
for _value in ("10", None, [10], 1j):
    malformed("a scheduler above %r" % (_value,), TypeError,
              lambda s, v=_value: Scheduler(s.satellite, v))
malformed("a file in a missing folder", OSError,
          lambda s: s.satellite.position.save_text_file(os.path.join(s.folder, "no", "x")))
for _value in ("text", None):
    malformed("distance to %r" % _value, Exception,
              lambda s, v=_value: s.satellite.distance(v))
    malformed("look angle to %r" % _value, Exception,
              lambda s, v=_value: s.satellite.look_angle(v))
    malformed("sidereal time at %r" % _value, Exception, lambda s, v=_value: s.clock.lmst(v))


def run(steps):
    session = Session()
    try:
        for step in steps:
            if step in PROPER:
                getattr(session, step)()
                continue
            errors, call = MALFORMED[step]
            try:
                result = call(session)
            except errors:
                continue
            except Exception as error:
                check(False, "%s raised %s: %s (in %s)", step, type(error).__name__, error, steps)
            check(False, "%s was accepted and gave %r (in %s)", step, result, steps)
        return session.observe()
    finally:
        session.close()


_PROPER = {}


def history(ctx, steps):
    plain = tuple(s for s in steps if s in PROPER)
    if plain not in _PROPER:
        _PROPER[plain] = run(plain)
    got = run(steps)
    for a, b in zip(got, _PROPER[plain]):
        check(repr(a) == repr(b), "after %s: %.300s instead of %.300s", steps, a, b)
    ctx.step(len(steps))
    ctx.agreed(len(steps) - len(plain) + 1)
    ctx.state(tuple(steps))
    ctx.saw(tuple(steps))


def explore(ctx):
    names = list(MALFORMED)
    jobs = [([m],) for m in names]
    depth = 2 if not ctx.thorough else 3
    touching = [n for n in names if any(w in n for w in ("request", "collect", "schedul", "window",
                                                         "file", "saving"))]
    for n in range(1, depth + 1):
        for proper in itertools.product(PROPER, repeat=n):
            for place_ in range(n + 1):
                for m in names if n < 3 else touching:
                    if n == 2 and not ctx.thorough and m not in touching:
                        continue
                    jobs.append((list(proper[:place_]) + [m] + list(proper[place_:]),))
    for a, b in itertools.product(touching, repeat=2):
        jobs.append(([a, "request", b, "generate"],))
        if ctx.thorough:
            jobs.append((["request", "window", "layer", a, b],))
    if ctx.thorough:
        jobs += [([a, b, "request", "window"],) for a, b in itertools.product(names, repeat=2)]
    if len(names) < 50:
        raise HarnessError("malformed calls are missing")
    ctx.note(malformed_calls=len(names), proper_operations=len(PROPER), depth=depth)
    ctx.sample(jobs[-1][0])
    ctx.cases(history, jobs, chunk=32)
