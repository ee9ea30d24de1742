"""Operations leave their inputs alone, repeat, and do not share arrays with their results."""
import itertools

import numpy as np

from mc import ops
from mc.core import check, pristine_all
from mc.env import require_close, sun_at
from celest import units as u
from celest.coordinates import AzEl, Coordinate, GroundLocation, ITRS, WGS84
from celest.encounter import Lighting, generate_vtws
from celest.satellite import Satellite
from celest.time import Time

PROPERTY = "C10"
LEVEL = "model_checking"
RULE = ("one shared set of frames, satellites, several ground locations and a clock; states are what the "
        "shared objects hold, transitions are the operations of the library on them; every "
        "operation sequence up to the depth bound is executed; after every step the shared "
        "objects and the caller's arrays have to be bitwise what they were and the result has to "
        "be the one a fresh set of objects gives; afterwards every array of every result is "
        "overwritten and the shared objects checked again; lit windows use a stand-in Sun; sequences of 200 operations that go "
        "through all of them in several orders are executed too, every operation is called 300 times on one set "
        "and three times on each of 120 sets in turn, kept or made anew")
ASSUMPTIONS = ["converting to the frame a position is already in returns that position (documented "
               "behaviour), so it is not in the overwriting step"]

# Two sets of shared objects, of the same shapes and with different contents.
WORLDS = {"first": [0, 1, 4], "second": [3, 5, 2]}
# And a crowd of them: every three samples in every order.
CROWD = {"crowd %d" % k: list(index)
         for k, index in enumerate(itertools.permutations(range(6), 3))}


class World:
    def __init__(self, which="first"):
        INDEX = WORLDS[which] if which in WORLDS else CROWD[which]
        self.frames = {n: f(INDEX) for n, f in ops.SOURCES.items()}
        self.coordinates = {n: Coordinate(f) for n, f in self.frames.items()}
        self.position, self.velocity = ops.gcrs(INDEX), ops.gcrs(INDEX, True)
        self.satellite = Satellite(self.position, self.velocity)
        self.passing = passing(which)
        self.itrs_satellite = Satellite(self.frames["ITRS"], ops.itrs(INDEX, True))
        self.location = ops.location()
        self.places = places(which)
        self.caller = ops.times(INDEX)
        self.clock = Time(self.caller)
        self.longitude = ops.longitudes(INDEX)
        self.julian = u.Quantity(self.caller, u.jd2000)

    def arrays(self):
        found = []
        for f in list(self.frames.values()) + [
                self.position, self.velocity, self.satellite.position, self.satellite.velocity,
                self.itrs_satellite.position, self.itrs_satellite.velocity,
                self.passing.position, self.passing.velocity]:
            q = ([f.latitude, f.longitude, f.height] if isinstance(f, WGS84)
                 else [f.x, f.y, f.z])
            found += [(q_.data, str(q_.unit)) for q_ in q + [f.time]]
        found += [(self.caller, ""), (self.longitude, ""),
                  (self.clock.julian.data, str(self.clock.julian.unit)),
                  (self.julian.data, str(self.julian.unit))]
        for place in [self.location] + list(self.places.values()):
            found += [(np.array([q.data]), str(q.unit)) for q in
                      (place.latitude, place.longitude, place.height)]
        return found

    def snapshot(self):
        return [(np.array(a, copy=True), name) for a, name in self.arrays()]


def places(which):
    """Locations that differ in one thing from each other and from the usual one."""
    here = ops.location()
    latitude, longitude, height = (q.data for q in (here.latitude, here.longitude, here.height))
    more = {"first": 0.0, "second": 0.25}.get(which)
    if more is None:
        more = (1 + list(CROWD).index(which)) / 256
    return {"higher": GroundLocation(latitude, longitude, height + 5 + more, u.deg, u.km),
            "metres": GroundLocation(latitude, longitude, height + more, u.deg, u.m),
            "east": GroundLocation(latitude, longitude + 5 + more, height, u.deg, u.km),
            "north": GroundLocation(latitude + 5 + more, longitude, height, u.deg, u.km)}


def passers(w):
    """Locations made for one use each."""
    found = []
    for k in range(4):
        def place():
            return GroundLocation(10.0 * k, 20.0, 0.1, u.deg, u.km)
        found += [w.satellite.distance(place()), w.satellite.look_angle(place()),
                  w.satellite.attitude(place()),
                  w.coordinates["GCRS"].convert_to(AzEl, place())]
    return found


def passing(which):
    """A satellite that is seen, or not, over the location.

    Both worlds have as many samples, beginning and ending at the same times.
    """
    seen = {"first": "0110011100", "second": "0011101001"}.get(which)
    if seen is None:
        seen = format(257 + 6 * list(CROWD).index(which), "010b")
    times = 2460462.5 + np.arange(len(seen)) / 64
    if which != "first":
        times[1:-1] += 1 / 256
    place = ops.location()
    up = np.array([q.to(u.km) for q in (place.itrs_x, place.itrs_y, place.itrs_z)])
    rows = np.array([up * 1.1 if s == "1" else -up for s in seen])
    speed = np.cross([0.0, 0.0, 1.0], up) * 1e-3 + np.arange(len(seen))[:, None] * 1e-2
    return Satellite(ITRS(times, *rows.T.copy(), u.km), ITRS(times, *speed.T.copy(), u.km / u.s))


def sun(julian):
    """A stand-in Sun that goes round the sky in eighteen minutes."""
    angle = 2 * np.pi * np.asarray(julian) * 80
    return 1.5e8 * np.array([np.cos(angle), np.sin(angle), 0.2 * np.cos(3 * angle)])


SUN = sun_at(sun)
SUN.__enter__()


def windows(w, lighting=Lighting.ANYTIME, place=None):
    found = generate_vtws(w.passing, place or w.location, 0.0, lighting)
    return [(v.rise_time, v.set_time, v.attitude) for v in found]


def quantity_operators(w):
    x, y = w.position.x, w.position.y
    return [x + y, x - y, x * y, x / y, 2 * x, x * 2, x / 2, 2 / x, -x, x + 1.5, 1.5 - x,
            (x < y) * 1, (x == y) * 1, (x * y).to(u.m ** 2), x * np.array(3.0)]


def _ops():
    table = {}
    for s in ops.SOURCES:
        for t in ops.TARGETS:
            table["%s->%s" % (s, t)] = lambda w, s=s, t=t: w.coordinates[s].convert_to(
                ops.TARGETS[t], w.location)
        table["new coordinate of " + s] = lambda w, s=s: [
            Coordinate(w.frames[s]).convert_to(f, w.location)
            for n, f in ops.TARGETS.items() if n != s]
    for kind in ("satellite", "itrs_satellite"):
        table[kind + ".altitude"] = lambda w, k=kind: getattr(w, k).altitude()
        for n in ("distance", "look_angle", "attitude"):
            table["%s.%s" % (kind, n)] = lambda w, k=kind, n=n: getattr(getattr(w, k), n)(
                w.location)
    table["new satellite"] = lambda w: Satellite(w.position, w.velocity)
    for n in ("true_solar_time", "mean_solar_time", "true_hour_angle", "mean_hour_angle",
              "lmst", "last"):
        table["clock." + n] = lambda w, n=n: getattr(w.clock, n)(w.longitude)
    for n in ("ut1", "gmst", "gast", "datetime"):
        table["clock." + n] = lambda w, n=n: getattr(w.clock, n)()
    from celest.coordinates import astronomical_quantities as aq
    for n in ("earth_rotation_angle", "nutation_angles", "nutation_components",
              "conventional_precession_angles", "mean_obliquity", "apparent_obliquity",
              "from_julian", "day_of_year", "equation_of_time", "equation_of_equinoxes",
              "sun_right_ascension"):
        table[n] = lambda w, n=n: getattr(aq, n)(w.julian)
    table["new clock"] = lambda w: (Time(w.caller, 0.25).julian, Time(w.caller, 2430000).gmst())
    table["windows"] = lambda w: windows(w)
    table["windows by day"] = lambda w: windows(w, Lighting.DAYTIME)
    table["windows by night"] = lambda w: windows(w, Lighting.NIGHTTIME)
    table["quantity operators"] = lambda w: quantity_operators(w)
    table["location"] = lambda w: (w.location.itrs_x, w.location.itrs_y, w.location.itrs_z,
                                   w.location.radius, str(w.location), repr(w.location))
    for n in ("x", "y", "z"):
        table["to_numpy " + n] = lambda w, n=n: w.position.to_numpy(u.m)
    for unit in (u.m, u.mi, u.km):
        table["x.to(%s)" % unit] = lambda w, unit=unit: w.position.x.to(unit)
    table["julian arithmetic"] = lambda w: (w.julian + 1.5, 2 * w.julian, -w.julian,
                                            w.julian - w.julian)
    for p in ("higher", "metres", "east", "north"):
        for n in ("distance", "look_angle", "attitude"):
            table["satellite.%s from %s" % (n, p)] = lambda w, n=n, p=p: getattr(
                w.satellite, n)(w.places[p])
        table["look %s" % p] = lambda w, p=p: [
            w.coordinates[s].convert_to(AzEl, w.places[p]) for s in ("GCRS", "ITRS", "WGS84")]
    table["windows over higher"] = lambda w: windows(w, place=w.places["higher"])
    table["passers"] = lambda w: passers(w)
    return table


OPS = _ops()


def arrays_of(value):
    """Every array reachable from a result."""
    if isinstance(value, np.ndarray):
        return [value]
    if isinstance(value, (tuple, list)):
        return sum([arrays_of(v) for v in value], [])
    if hasattr(value, "to") and hasattr(value, "data"):
        return arrays_of(value.data)
    if isinstance(value, (int, float, bool, np.generic)):
        return [np.array(value)]
    if isinstance(value, Satellite):
        return arrays_of(value.position) + arrays_of(value.velocity)
    found = []
    for name in ("x", "y", "z", "latitude", "longitude", "height", "azimuth", "elevation",
                 "roll", "pitch", "yaw", "time"):
        attribute = getattr(type(value), name, None)
        if attribute is not None:
            found += arrays_of(getattr(value, name))
    return found


def lonely(name, which):
    return [np.array(a, copy=True) for a in arrays_of(OPS[name](World(which)))]


def prepare(jobs):
    """What each operation gives in a process that did nothing else."""
    jobs = [j for j in dict.fromkeys(map(tuple, jobs)) if j not in _FRESH]
    if jobs:
        _FRESH.update(zip(jobs, pristine_all(lonely, jobs)))


_FRESH = {}


def same_arrays(got, want):
    if len(got) != len(want):
        return False
    for a, b in zip(got, want):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype == object:
            if not np.array_equal(a, b):
                return False
        elif not np.array_equal(a, b, equal_nan=True):
            return False
    return True


def intact(before, world, what):
    for (a, name), (b, other) in zip(before, world.arrays()):
        check(name == other and np.array_equal(a, b), "%s changed its inputs: %s became %s",
              what, a, b)


def sequence(ctx, steps):
    """`steps` is a list of (operation, set of objects)."""
    steps = [tuple(step) for step in steps]
    prepare(steps)
    worlds = {which: World(which) for which in dict.fromkeys(w for _, w in steps)}
    before = {which: world.snapshot() for which, world in worlds.items()}
    results = []

    def all_intact(what):
        for which, world in worlds.items():
            intact(before[which], world, what)

    for i, (name, which) in enumerate(steps):
        result = OPS[name](worlds[which])
        ctx.step()
        what = " ; ".join("%s on the %s set" % s for s in steps[:i + 1])
        all_intact(what)
        check(same_arrays(arrays_of(result), _FRESH[name, which]),
              "%s: the result differs from the one of fresh objects", what)
        results.append((name, which, result))
        ctx.state(tuple(steps[:i + 1]))
    # An earlier result is not changed by a later operation.
    for name, which, result in results:
        check(same_arrays(arrays_of(result), _FRESH[name, which]),
              "the result of %s changed later, in %s", name, steps)
    # Scribble over every result that is not the shared object itself.
    for name, which, result in results:
        if "->" in name and name.split("->")[0] == name.split("->")[1]:
            continue
        for array in arrays_of(result):
            if array.dtype != object and array.flags.writeable and array.size:
                array[...] = -1
                all_intact("overwriting the result of " + name)
    for name, which in steps:
        check(same_arrays(arrays_of(OPS[name](worlds[which])), _FRESH[name, which]),
              "%s differs after its earlier result was overwritten", name)
    ctx.agreed(len(steps) * 2)
    ctx.saw(tuple(steps))


def repeated(ctx, name, times):
    """The same call on the same objects, over and over."""
    prepare([(name, "first")])
    world = World("first")
    before = world.snapshot()
    for k in range(times):
        ctx.step()
        check(same_arrays(arrays_of(OPS[name](world)), _FRESH[name, "first"]),
              "call %d of %s differs from the first", k + 1, name)
        ctx.state((name, "call", k))
    intact(before, world, name)
    ctx.agreed(times)
    ctx.saw(("repeated", name))


def everything(which):
    world = World(which)
    return {name: [np.array(a, copy=True) for a in arrays_of(OPS[name](world))] for name in OPS}


_CROWD = {}


def crowd(ctx, name, kept):
    """The same call on many different objects, there and back."""
    if not _CROWD:
        _CROWD.update(zip(CROWD, pristine_all(everything, [(which,) for which in CROWD])))
    worlds = {which: World(which) for which in CROWD} if kept else {}
    order = list(CROWD)
    for which in order + order[::-1] + order:
        world = worlds.get(which) or World(which)
        ctx.step()
        check(same_arrays(arrays_of(OPS[name](world)), _CROWD[which][name]),
              "%s on the %s set, amid %d others, differs from the one of fresh objects", name,
              which, len(CROWD) - 1)
        ctx.state((name, which))
    ctx.agreed(3 * len(CROWD))
    ctx.saw(("crowd", name, kept))


def explore(ctx):
    names = list(OPS)
    steps = [(n, w) for n in names for w in WORLDS]
    prepare(steps)
    jobs = [([a],) for a in steps]
    jobs += [([(a, "first"), b],) for a, b in itertools.product(names, steps)]
    jobs += [([(a, "second"), (a, "first")],) for a in names]
    if ctx.thorough:
        core = [n for n in names if "->" in n or "satellite" in n]
        jobs += [([(a, "first"), (b, "second"), (c, "first")],)
                 for a, b, c in itertools.product(core, repeat=3)]
    # long sequences: every operation, in several orders, on the two sets in turn
    worlds = list(WORLDS)
    for stride in (1, 7, 11) if not ctx.thorough else (1, 3, 5, 7, 9, 11, 13, 17, 19, 23):
        for switch in (1, 2, 5):
            jobs.append(([(names[(k * stride + k // len(names)) % len(names)],
                           worlds[k // switch % 2]) for k in range(200)],))
    for name in names:
        jobs.append(([(name, "first")] * 12 + [(name, "second")] * 3 + [(name, "first")],))
    if not _CROWD:
        _CROWD.update(zip(CROWD, pristine_all(everything, [(which,) for which in CROWD])))
    ctx.cases(crowd, list(itertools.product(names, (True, False))), chunk=1)
    ctx.cases(repeated, [(name, 300 if not ctx.thorough else 2000) for name in names], chunk=1)
    ctx.note(longest_sequence=200, calls_of_one_kind=300 if not ctx.thorough else 2000,
             objects_at_once=len(CROWD))
    ctx.note(operations=len(names), depth=3 if ctx.thorough else 2)
    ctx.sample(jobs[len(jobs) // 2])
    ctx.cases(sequence, jobs, chunk=64)
