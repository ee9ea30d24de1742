"""Text files hold exactly the saved data, after every history of writers and saves."""
import itertools
import os
import shutil
import tempfile

import numpy as np

from mc import ops
from mc.core import check
from celest import units as u
from celest.coordinates import (Attitude, AzEl, Coordinate, GCRS, GroundLocation, ITRS, LVLH,
                                WGS84)
from celest.encounter.window_handling import (ObservationWindow, VisibleTimeWindow,
                                              WindowCollection)
from celest.file_save import TextFileWriter
from celest.satellite import Satellite
from celest.units.quantity import Quantity

PROPERTY = "C29"
LEVEL = "model_checking"
RULE = ("a state is what every file of a scratch directory says plus the pending layers of two "
        "writers; transitions are adding a layer, saving a writer, and saving each kind of "
        "object, under names with and without the extension, over older and longer files; every "
        "sequence up to the depth is executed on the real code and after each step every file is "
        "read back and compared, number by number, with what was last saved under its name; files of up to thousands of rows and lives of dozens "
        "of layers and saves follow")
ASSUMPTIONS = ["a number printed with a format of k decimals is half a unit of the last decimal "
               "off at most"]

PLACE = (43.6532, -79.3832, 0.076)


def numbers(size, seed, scale=1.0):
    """Fixed awkward numbers: tiny, huge, negative, integral."""
    pool = np.array([0.1, -7012.345678901234, 3.0, 1e-9, -0.0, 42164.125, -1e-15, 123456789.875,
                     2 / 3, -5e5, -3.251234567890123e17, 1.123456789012345e22, 5e-300])
    return scale * pool[(seed + 3 * np.arange(size)) % len(pool)]


def instants(size, seed):
    return 2460462.5 + seed + np.arange(size) / 7


# -- what a file is expected to say -------------------------------------------
# A block is ("text", string), ("table", [(label, unit or None, column, decimals)]).
def frame_block(pairs):
    return ("table", [(label, str(q.unit), np.asarray(q.data), 15) for label, q in pairs])


def place():
    return GroundLocation(*PLACE, u.deg, u.km)


def save_vector(kind, size, seed, unit):
    frame = kind(instants(size, seed), numbers(size, seed), numbers(size, seed + 1),
                 numbers(size, seed + 2), getattr(u, unit))
    want = [("Time", instants(size, seed), "jd2000"), ("X", numbers(size, seed), unit),
            ("Y", numbers(size, seed + 1), unit), ("Z", numbers(size, seed + 2), unit)]
    return frame, want, []


def save_wgs84(size, seed, angular, length):
    values = [numbers(size, seed + i, 1e-3) for i in range(3)]
    frame = WGS84(instants(size, seed), *values, getattr(u, angular), getattr(u, length))
    return frame, [("Time", instants(size, seed), "jd2000"), ("Latitude", values[0], angular),
                   ("Longitude", values[1], angular), ("Height", values[2], length)], []


def save_azel(size, seed, angular):
    values = [numbers(size, seed + i, 1e-3) for i in range(2)]
    frame = AzEl(instants(size, seed), *values, getattr(u, angular), place())
    return frame, [("Time", instants(size, seed), "jd2000"), ("Azimuth", values[0], angular),
                   ("Elevation", values[1], angular)], [str(place())]


def save_attitude(size, seed, angular):
    values = [numbers(size, seed + i, 1e-3) for i in range(3)]
    frame = Attitude(instants(size, seed), *values, getattr(u, angular), place())
    return frame, [("Time", instants(size, seed), "jd2000"), ("Roll", values[0], angular),
                   ("Pitch", values[1], angular), ("Yaw", values[2], angular)], [str(place())]


def save_satellite(index, frame, with_velocity):
    position = ops.SOURCES[frame](index)
    velocity = ops.SOURCES[frame](index, True) if with_velocity else None
    satellite = Satellite(position, velocity)
    want = [("Time", ops.times(index), "jd2000")]
    tables = {}
    for name, source, held in (("", position, satellite.position),
                               ("V", velocity, satellite.velocity)):
        if source is None:
            continue
        tables["Itrs", name] = ops.xyz(held)
        # a GCRS satellite has to show what it was built from
        tables["Gcrs", name] = ops.xyz(source if frame == "GCRS"
                                       else Coordinate(held).convert_to(GCRS))
    for system in ("Itrs", "Gcrs"):
        for name in ("", "V"):
            if (system, name) in tables:
                unit = "km" if not name else str(velocity.x.unit)
                for j, axis in enumerate("XYZ"):
                    want.append(("%s %s%s" % (system, name, axis),
                                 tables[system, name][:, j], unit))
    return satellite, want, []


def attitude_at(k):
    return Attitude(instants(1, k), np.array([1.5 + k]), np.array([-2.25 * k]),
                    np.array([0.125 - k]), u.deg, place())


def save_windows(kind, size, seed):
    collection = WindowCollection()
    starts = [2460462.5 + seed + 0.37 * ((5 * k) % 7) for k in range(size)]
    if kind == "visible":
        for k, start in enumerate(starts):
            collection.add_window(VisibleTimeWindow(start, start + 0.01 * (k + 1),
                                                    attitude_at(k)))
        return collection, [("Rise Time", np.array(starts), "jd2000"),
                            ("Set Time", np.array([s + 0.01 * (k + 1)
                                                   for k, s in enumerate(starts)]),
                             "jd2000")], []
    places = [GroundLocation(10.0 * (k % 9) - 5, 20.0 * (k % 8) - k % 70, 0.5, u.deg, u.km) for k in range(size)]
    for k, start in enumerate(starts):
        unit = (u.s, u.min)[k % 2]
        collection.add_window(ObservationWindow(
            Quantity(start, u.jd2000), Quantity(30.0 * (k + 1) / (1, 60)[k % 2], unit), places[k],
            attitude_at(k)))
    return collection, [
        ("Start Time", np.array(starts), "jd2000"),
        ("Duration", 30.0 * (np.arange(size) + 1), "s"), ("Location", list(map(str, places)), None),
        ("Roll", np.array([1.5 + k for k in range(size)]), "deg"),
        ("Pitch", np.array([-2.25 * k for k in range(size)]), "deg"),
        ("Yaw", np.array([0.125 - k for k in range(size)]), "deg")], []


OBJECTS = {}
for _n, _k in (("GCRS", GCRS), ("ITRS", ITRS), ("LVLH", LVLH)):
    for _size, _seed, _unit in ((1, 0, "km"), (4, 3, "m"), (3, 5, "mi"), (0, 0, "km")):
        if _size:
            OBJECTS["%s%d" % (_n, _size)] = (save_vector, _k, _size, _seed, _unit)
OBJECTS["WGS84a"] = (save_wgs84, 1, 1, "deg", "km")
OBJECTS["WGS84b"] = (save_wgs84, 5, 2, "rad", "m")
OBJECTS["AzEla"] = (save_azel, 1, 4, "deg")
OBJECTS["AzElb"] = (save_azel, 5, 2, "rad")
OBJECTS["Attitudea"] = (save_attitude, 2, 4, "rad")
OBJECTS["Attitudeb"] = (save_attitude, 6, 1, "deg")
for _f in ("GCRS", "ITRS"):
    for _v in (True, False):
        OBJECTS["Satellite of %s%s" % (_f, " with velocity" * _v)] = (save_satellite, [0, 2, 5],
                                                                      _f, _v)
OBJECTS["visible1"] = (save_windows, "visible", 1, 0)
OBJECTS["visible5"] = (save_windows, "visible", 5, 7)
OBJECTS["observed1"] = (save_windows, "observed", 1, 2)
OBJECTS["observed4"] = (save_windows, "observed", 4, 3)

SMALL = list(OBJECTS)
OBJECTS["GCRSlong"] = (save_vector, GCRS, 300, 1, "km")
OBJECTS["WGS84long"] = (save_wgs84, 260, 2, "deg", "km")
OBJECTS["AzEllong"] = (save_azel, 129, 4, "deg")
OBJECTS["Attitudelong"] = (save_attitude, 101, 3, "rad")
OBJECTS["Satellite long"] = (save_satellite, list(range(6)) * 20, "ITRS", True)
OBJECTS["visiblelong"] = (save_windows, "visible", 70, 1)
OBJECTS["observedlong"] = (save_windows, "observed", 70, 5)
LONG = list(OBJECTS)[len(SMALL):]
OBJECTS["GCRShuge"] = (save_vector, GCRS, 9001, 1, "km")
OBJECTS["ITRShuge"] = (save_vector, ITRS, 4200, 2, "m")
OBJECTS["WGS84huge"] = (save_wgs84, 8300, 2, "deg", "km")
OBJECTS["AzElhuge"] = (save_azel, 5000, 4, "deg")
OBJECTS["Attitudehuge"] = (save_attitude, 5000, 3, "rad")
OBJECTS["Satellite huge"] = (save_satellite, list(range(6)) * 750, "ITRS", True)
OBJECTS["visiblehuge"] = (save_windows, "visible", 1100, 1)
OBJECTS["observedhuge"] = (save_windows, "observed", 1100, 5)
HUGE = list(OBJECTS)[len(SMALL) + len(LONG):]

LOOSE = {"Satellite": 1e-6}      # km: rotations there and back


def layers(name=None):
    """Layer variants: (subheading, parameters, [(label, column, unit or None)], decimals)."""
    made = {
        "full": lambda: ("Sub one", [["Site", "A b"], ["Count", "12"]],
                 [("Alpha", numbers(3, 1), "km"), ("Beta", numbers(3, 4), None)], 15),
        "odd": lambda: (None, None, [
            ("Odd", np.array([np.nan, np.inf, -np.inf, 1.2345678901234e308, -1.2345678901234e200, 1e15, 1e16]), "km"),
            ("Odder", np.array([1.0, np.nan, -1.0, np.inf, 2.0, 3.0, 4.0]), None)], 15),
        "data": lambda: (None, None, [("Only", numbers(5, 2), "deg")], 15),
        "coarse": lambda: (None, [["Rule", "x"]], [("P", numbers(2, 5), "s"), ("Q", numbers(2, 0), "m"),
                                           ("R", numbers(2, 8), "rad")], 3),
        "text": lambda: ("Words only", [["Key", "value: with colon"]], None, 15),
        "bare": lambda: ("Lonely", None, None, 15),
        "whole": lambda: ("Integers", None, [("I", np.array([3, -4, 50]), None)], 15),
        "long": lambda: ("Long", [["P%d" % k, "v" * k] for k in range(1, 15)],
                 [("C%d" % k, numbers(150, k), "km") for k in range(12)], 15),
        "tall": lambda: ("Tall", None, [("C%d" % k, numbers(5000, k), "km") for k in range(3)], 6),
        "names": lambda: ("Strings", None, [("Name", np.array(["ab", "c", "d e"], dtype=object), None),
                                    ("V", numbers(3, 6), "km")], 15),
    }
    if name is None:
        return list(made)
    return made[name]()


def add(writer, layer):
    subheading, parameters, columns, decimals = layer
    data = None
    if columns is not None:
        data = [[label, column if unit is None else Quantity(column, getattr(u, unit))]
                for label, column, unit in columns]
    writer.add_layer(subheading, parameters, data, "%%.%df" % decimals)


def layer_blocks(layer):
    subheading, parameters, columns, decimals = layer
    blocks = []
    if subheading is not None:
        blocks.append(("text", subheading))
    for label, value in parameters or []:
        blocks.append(("text", label + ": " + value))
    if columns is not None:
        blocks.append(("table", [(label, unit, column, decimals, 0.0)
                                 for label, column, unit in columns]))
    return blocks


# -- reading a file back --------------------------------------------------------
def underline(line, char):
    stripped = line.replace("\t", "").strip()
    return bool(stripped) and set(stripped) == {char}


def compare(path, blocks, name):
    lines = [line for line in open(path, encoding="utf-8").read().split("\n") if line.strip()]
    lines = [line for line in lines if not underline(line, "=")]
    position = 0
    compared = 0

    def take():
        nonlocal position
        check(position < len(lines), "%s ends early: %s", name, lines)
        position += 1
        return lines[position - 1]

    for block in blocks:
        if block[0] == "text":
            line = take()
            check(line.strip() == block[1], "%s says %r instead of %r", name, line, block[1])
            continue
        if block[0] == "mention":
            line = take()
            check(block[1] in line, "%s says %r and not %r", name, line, block[1])
            continue
        columns = block[1]
        head = [cell.strip() for cell in take().split("\t")]
        check(head == [label + ("" if unit is None else " (%s)" % unit)
                       for label, unit, *_ in columns], "%s: the columns are %s", name, head)
        rule = take()
        check(underline(rule, "-"), "%s: %r below the column names", name, rule)
        for i in range(len(columns[0][2])):
            cells = [cell.strip() for cell in take().split("\t")]
            check(len(cells) == len(columns), "%s: row %s", name, cells)
            for cell, (label, unit, column, decimals, loose) in zip(cells, columns):
                want = column[i]
                if isinstance(want, str):
                    check(cell == want, "%s: %s is %r instead of %r", name, label, cell, want)
                else:
                    bound = 0.5 * 10.0 ** -decimals + loose + 2 ** -51 * abs(want)
                    check(abs(float(cell) - want) <= bound or float(cell) == want
                          or want != want and float(cell) != float(cell), "%s: %s of row %d is %s instead of %r",
                          name, label, i, cell, want)
                compared += 1
    check(position == len(lines), "%s has extra lines: %s", name, lines[position:])
    return compared


# -- the state machine ----------------------------------------------------------
class Machine:
    def __init__(self, directory):
        self.directory = directory
        self.files = {}
        self.writers = {}
        for key, name, header in (("W", "one", "Header of W"), ("V", "two.txt", None)):
            self.writers[key] = [TextFileWriter(os.path.join(directory, name), header), [],
                                 "one.txt" if key == "W" else "two.txt", header]

    def step(self, op):
        kind = op[0]
        if kind == "layer":
            add(self.writers[op[1]][0], layers(op[2]))
            self.writers[op[1]][1].append(op[2])
        elif kind == "write":
            writer, pending, name, header = self.writers[op[1]]
            writer.save()
            blocks = [] if header is None else [("text", header)]
            for layer in pending:
                blocks += layer_blocks(layers(layer))
            self.files[name] = blocks
        elif kind == "object":
            target = os.path.join(self.directory, op[2])
            make, *args = OBJECTS[op[1]]
            thing, columns, mentions = make(*args)
            thing.save_text_file(target)
            loose = max((v for k, v in LOOSE.items() if op[1].startswith(k)), default=0.0)
            self.files[op[2] if op[2].endswith(".txt") else op[2] + ".txt"] = (
                [("mention", "Data" if "Satellite" not in op[1] else "Satellite")]
                + [("mention", m) for m in mentions]
                + [("table", [(label, unit, column, 15, loose)
                              for label, column, unit in columns])])
        else:
            try:
                WindowCollection().save_text_file(os.path.join(self.directory, op[1]))
            except Exception:
                return
            check(False, "an empty collection was saved")

    def key(self):
        return (sorted((n, repr(b)) for n, b in self.files.items()),
                {k: tuple(v[1]) for k, v in self.writers.items()})


def history(ctx, operations):
    directory = tempfile.mkdtemp(prefix="mc-c29-")
    try:
        machine = Machine(directory)
        for i, op in enumerate(operations):
            machine.step(tuple(op))
            ctx.step()
            check(sorted(os.listdir(directory)) == sorted(machine.files),
                  "after %s the directory holds %s instead of %s", operations[:i + 1],
                  sorted(os.listdir(directory)), sorted(machine.files))
            for name, blocks in machine.files.items():
                ctx.agreed(compare(os.path.join(directory, name), blocks,
                                   "%s after %s" % (name, operations[:i + 1])))
            ctx.state(machine.key())
        ctx.saw(machine.key())
    finally:
        shutil.rmtree(directory)


WORDS = ["100%", "%s and %d", "%", "{0} {name}", "back\\slash \\n", "caf\u00e9 \u00b0 \u2032", "'\"", "a: b: c",
         "#!$&*()[]", "1e5", "x" * 200, "None"]


def wording(ctx, where, word):
    """Unusual words wherever a user gives text: they come out as they went in."""
    directory = tempfile.mkdtemp(prefix="mc-c29-")
    try:
        text = {k: word if k == where else k for k in
                ("header", "subheading", "label", "value", "column", "entry")}
        folder = os.path.join(directory, word if where == "folder" else "folder")
        os.mkdir(folder)
        name = word if where == "name" else "name"
        writer = TextFileWriter(os.path.join(folder, name), text["header"])
        layer = (text["subheading"], [["First", "1"], [text["label"], text["value"]]],
                 [(text["column"], numbers(2, 1), "km"),
                  ("Entry", np.array([text["entry"], "b"], dtype=object), None)], 15)
        for times in (1, 2):
            add(writer, layer)
            writer.save()
            check(os.listdir(folder) == [name + ".txt"], "%r in the %s: files %s", word, where,
                  os.listdir(folder))
            ctx.agreed(compare(os.path.join(folder, name + ".txt"), [("text", text["header"])]
                               + times * layer_blocks(layer), "%r in the %s" % (word, where)))
            ctx.step(2)
        ctx.state((where, word))
        ctx.saw((where, word))
    finally:
        shutil.rmtree(directory)


def explore(ctx):
    ctx.cases(wording, [(where, word) for word in WORDS for where in (
        "header", "subheading", "label", "value", "column", "entry", "name", "folder")
        if len(word) < 200 or where not in ("name", "folder")])
    objects = [("object", name, target) for name in SMALL for target in ("one", "two.txt")]
    # the extension counts at the end only
    objects += [("object", name, target) for name in SMALL[::5]
                for target in ("one.txt.old", "my.txt_data", "TWO.TXT", "one.dat")]
    add_w = [("layer", "W", n) for n in layers() if n not in ("long", "tall")]
    add_v = [("layer", "V", n) for n in layers() if n not in ("long", "tall")]
    writes = [("write", "W"), ("write", "V")]
    empty = [("empty", "one"), ("empty", "two")]
    alphabet = objects + add_w + add_v + writes + empty
    jobs = [([a],) for a in alphabet] + [([a, b],) for a in alphabet for b in alphabet]
    # deeper over the writers alone, and objects around them
    small = add_w + [add_v[0], add_v[1], add_v[6]] + writes
    depth = 5 if ctx.thorough else 4
    for sequence in itertools.product(small, repeat=depth):
        # only sequences that write something last, and no pointless order of equal effect
        if sequence[-1][0] == "write":
            jobs.append((list(sequence),))
    few = objects[::3] + writes + add_w[:2] + empty[:1]
    jobs += [(list(s),) for s in itertools.product(few, repeat=3) if s[-1][0] != "layer"]
    # long files, and long lives of the writers and of one file
    for name in LONG:
        jobs += [([("object", name, "one")],),
                 ([("object", name, "one"), ("object", "GCRS1", "one"), writes[1]],),
                 ([("object", "GCRS4", "one"), ("object", name, "one"), ("layer", "V", "long"),
                   writes[1], writes[0]],)]
    jobs = [([("object", name, "one")],) for name in HUGE] + [
        ([("layer", "W", "tall"), ("layer", "W", "data"), writes[0]],)] + jobs
    names = [n for n in layers() if n != "tall"]
    for stride in (1, 3, 5):
        for every in (1, 4, 20):
            life = []
            for k in range(24 if every == 1 else 40):
                life.append(("layer", "WWV"[k % 3], names[(k * stride + k // 8) % len(names)]))
                if k % every == every - 1:
                    life.append(writes[k // every % 2])
            jobs.append((life + writes,))
        jobs.append(([("object", SMALL[(k * stride) % len(SMALL)], ("one", "two.txt")[k % 2])
                      for k in range(60)] + writes,))
    ctx.note(histories=len(jobs), operations=len(alphabet))
    ctx.sample(jobs[-7])
    ctx.cases(history, jobs)
