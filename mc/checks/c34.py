"""The same calls give the same results in whatever process they are made."""
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from mc.core import HERE, HarnessError, check, pristine_all

PROPERTY = "C34"
LEVEL = "model_checking"
RULE = ("one program of every operation of the catalogue (conversions, satellites, clocks, windows, "
        "saves, prints, schedules of seeded draws) runs in a fresh process for every plain, every "
        "single and every pair (quick: pairs of the commoner ones) of surroundings: hash seed, time "
        "zone, wall clock, optimisation, locale, working directory, file mode mask, first celest "
        "module imported, order of the operations, garbage collector, numpy's settings, decimal "
        "precision, thread, streams; every result has to be bitwise that of the plain process, and "
        "every setting of the process that of before the operation; states are surroundings, "
        "transitions operations run")
ASSUMPTIONS = ["one machine and one set of installed libraries",
               "the schedule search draws from Python's random module, seeded by the caller"]

MODULES = ["celest", "celest.units", "celest.units.core", "celest.units.quantity", "celest.time",
           "celest.constants", "celest.coordinates", "celest.coordinates.coordinate",
           "celest.coordinates.ground_location", "celest.coordinates.astronomical_quantities",
           "celest.coordinates.frames.gcrs", "celest.coordinates.frames.azel", "celest.satellite",
           "celest.encounter", "celest.encounter.window_generator",
           "celest.encounter.window_handling", "celest.schedule", "celest.schedule.scheduler",
           "celest.schedule.alns", "celest.schedule.request_handler", "celest.file_save",
           "celest.angle_strings"]

# factor: {value: (environment, options of the interpreter, plan)}
FACTORS = {
    "hash seed": {s: ({"PYTHONHASHSEED": s}, [], {}) for s in ("1", "2", "3", "4294967295")},
    "zone": {z: ({"TZ": z}, [], {}) for z in ("America/New_York", "Asia/Kolkata",
                                              "XYZ-13:45", "Europe/London")},
    "clock": {c: ({}, [], {"clock": c}) for c in (0, 4102444800)},
    "optimised": {o: ({}, [o], {}) for o in ("-O", "-OO")},
    "locale": {"POSIX": ({"LC_ALL": "POSIX", "PYTHONUTF8": "0"}, [], {})},
    "folder": {"another": ({}, [], {"folder": "another"})},
    "mask": {"private": ({}, [], {"mask": 0o77})},
    "streams": {"closed": ({}, [], {"streams": "closed"})},
    "first": {m: ({}, [], {"first": m}) for m in MODULES},
    "order": {o: ({}, [], {"order": o}) for o in ("backwards", "shuffled")},
    "collector": {g: ({}, [], {"gc": g}) for g in ("eager", "off")},
    "numpy": {n: ({}, [], {"numpy": n}) for n in ("short prints", "silent", "strict", "seeded",
                                                  "old prints")},
    "decimal": {"short": ({}, [], {"decimal": 3})},
    "thread": {"another": ({}, [], {"thread": 1})},
    "home": {"none": ({"HOME": "/nonexistent", "USER": "", "LOGNAME": ""}, [], {})},
}
COMMON = [("hash seed", "1"), ("zone", "America/New_York"), ("optimised", "-O"),
          ("clock", 4102444800), ("first", "celest.schedule"), ("first", "celest.encounter"),
          ("order", "backwards"), ("collector", "eager"), ("numpy", "short prints"),
          ("numpy", "strict"), ("thread", "another")]

SCENARIOS = {"quick": (3, 4), "thorough": (3, 4, 5, 6)}
SEEDS = {"quick": (1, 2), "thorough": (1, 2, 3)}


def outcome(surroundings, tier):
    """{operation: digest} of the program in these surroundings."""
    folder = tempfile.mkdtemp(prefix="c34-")
    try:
        plan = {"scenarios": SCENARIOS[tier], "seeds": SEEDS[tier], "iterations": 12,
                "modules": MODULES}
        environment = {k: v for k, v in os.environ.items() if not k.startswith(("TZ", "LC_"))}
        environment.update(PYTHONHASHSEED="0", TMPDIR=folder, TZ="UTC")
        options = []
        for factor, value in surroundings:
            more, flags, change = FACTORS[factor][value]
            environment.update(more)
            options += flags
            plan.update(change)
        where = os.path.join(folder, plan["folder"]) if "folder" in plan else folder
        os.makedirs(where, exist_ok=True)
        closed = "streams" in plan
        done = subprocess.run(
            [sys.executable, "-W", "ignore"] + options + ["-m", "mc.surroundings",
                                                          json.dumps(plan)],
            env=environment, cwd=where, stdin=subprocess.DEVNULL if closed else subprocess.PIPE,
            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if closed else subprocess.PIPE,
            umask=plan.get("mask", 0o22), text=True, timeout=200)
        lines = [line for line in done.stdout.splitlines() if line.startswith("RESULT ")]
        check(lines, "the program did not end in a process with %s: %s", surroundings,
              (done.stderr or "")[-600:])
        return json.loads(lines[-1][len("RESULT "):])
    finally:
        shutil.rmtree(folder)


_PLAIN = {}


def plain(tier):
    if tier not in _PLAIN:
        _PLAIN[tier] = outcome([], tier)
    return _PLAIN[tier]


def process(ctx, surroundings, tier):
    want = plain(tier)
    for name, value in want.items():
        check(" " not in value, "%s: %s", name, value)
    got = outcome([tuple(s) for s in surroundings], tier)
    if set(got) != set(want):
        raise HarnessError("the program did different things")
    for name in want:
        check(got[name] == want[name], "%s differs in a process with %s: %s", name,
              ", ".join("%s %s" % tuple(s) for s in surroundings), got[name])
    ctx.state(tuple(map(tuple, surroundings)))
    ctx.step(len(got))
    ctx.agreed(len(got))
    ctx.saw(tuple(map(tuple, surroundings)))


def explore(ctx):
    tier = "thorough" if ctx.thorough else "quick"
    _PLAIN[tier] = pristine_all(outcome, [([], tier)])[0]
    single = [(f, v) for f, values in FACTORS.items() for v in values]
    jobs = [[]] + [[s] for s in single]
    jobs += [[a, b] for a, b in itertools.combinations(single if ctx.thorough else COMMON, 2)
             if a[0] != b[0]]
    if ctx.thorough:
        jobs += [list(c) for c in itertools.combinations(COMMON, 3)
                 if len({f for f, _ in c}) == 3]
    ctx.note(surroundings=len(jobs), operations=len(_PLAIN[tier]))
    ctx.sample(jobs[-1])
    ctx.cases(process, [(j, tier) for j in jobs], chunk=2)
