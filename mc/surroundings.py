"""Run the whole catalogue of operations in this process and print what came out.

usage: python -m mc.surroundings '{"first": module, "numpy": ..., "gc": ..., ...}'
Prints one line of JSON: {operation: digest}.
"""
import json
import os
import sys
import warnings


def settings():
    """What a process has one of, and the library has no business changing."""
    import decimal
    import gc
    import locale
    import random
    import signal
    import socket
    import threading
    import time
    import numpy as np
    umask = os.umask(0o22)
    os.umask(umask)
    return {
        "numpy's error handling": np.geterr(), "numpy's print options": str(np.get_printoptions()),
        "numpy's generator": hash(str(np.random.get_state())),
        "the generator of random": hash(random.getstate()),
        "the working directory": os.getcwd(), "the environment": hash(str(sorted(os.environ.items()))),
        "the warning filters": str(warnings.filters), "the file mode mask": umask,
        "the recursion limit": sys.getrecursionlimit(), "the import path": list(sys.path),
        "the collector": (gc.isenabled(), gc.get_threshold()), "the locale": locale.setlocale(locale.LC_ALL),
        "decimal arithmetic": str(decimal.getcontext()).split("flags")[0],
        "standard output": id(sys.stdout), "tracing": (str(sys.gettrace()), str(sys.getprofile())),
        "the threads": threading.active_count(), "the time zone": time.tzname,
        "the files here": sorted(os.listdir(os.curdir)), "time outs": socket.getdefaulttimeout(), "the switch interval": sys.getswitchinterval(),
        "signals": str(signal.getsignal(signal.SIGINT)), "the exception hook": id(sys.excepthook),
    }


def surround(plan):
    """Bring about the surroundings that are set from inside a process."""
    import gc
    import numpy as np
    if plan.get("gc") == "eager":
        gc.set_threshold(1, 1, 1)
    elif plan.get("gc") == "off":
        gc.disable()
    if plan.get("numpy") == "short prints":
        np.set_printoptions(precision=2, threshold=3, suppress=True, edgeitems=1)
    elif plan.get("numpy") == "silent":
        np.seterr(all="ignore")
    elif plan.get("numpy") == "strict":
        np.seterr(divide="raise", invalid="raise", over="raise")
    elif plan.get("numpy") == "seeded":
        np.random.seed(99)
    elif plan.get("numpy") == "old prints":
        np.set_printoptions(legacy="1.13")
    if plan.get("decimal"):
        import decimal
        decimal.getcontext().prec = 3


def other_clock(now):
    """Let the wall clock show another time, from here on in steps of one second."""
    import datetime
    import itertools
    import time
    ticks = itertools.count(now)
    real = datetime.datetime

    class Clock(real):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(next(ticks), tz)

        @classmethod
        def utcnow(cls):
            return cls.utcfromtimestamp(next(ticks))

        @classmethod
        def today(cls):
            return cls.fromtimestamp(next(ticks))

    class Calendar(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(next(ticks))

    Clock.__name__ = Clock.__qualname__ = "datetime"
    Clock.__module__ = Calendar.__module__ = "datetime"
    Calendar.__name__ = Calendar.__qualname__ = "date"
    localtime, gmtime = time.localtime, time.gmtime
    datetime.datetime, datetime.date = Clock, Calendar
    time.time = lambda: float(next(ticks))
    time.time_ns = lambda: next(ticks) * 10 ** 9
    time.localtime = lambda s=None: localtime(next(ticks) if s is None else s)
    time.gmtime = lambda s=None: gmtime(next(ticks) if s is None else s)


def program(plan):
    import decimal                      # whatever these set up is there before
    import hashlib
    import importlib
    import random
    import numpy as np
    import jplephem.spk
    import pkg_resources
    if "clock" in plan:
        other_clock(plan["clock"])
    untouched = settings()
    for module in ([plan["first"]] if "first" in plan else []) + plan["modules"]:
        importlib.import_module(module)
    loaded = settings()
    surround(plan)
    from mc import plans
    from mc.checks import c31

    def digest(arrays):
        h = hashlib.blake2b(digest_size=12)
        for a in arrays:
            a = np.asarray(a)
            h.update(repr((a.shape, a.dtype.str)).encode())
            h.update(str([str(v) for v in a.ravel()]).encode() if a.dtype == object else
                     np.where(a != a, 0, a).tobytes() if a.dtype.kind == "f" else a.tobytes())
        return h.hexdigest()

    found = {"importing " + what: digest([str(loaded[what] == untouched[what])])
             if loaded[what] == untouched[what] else
             "changed from %s to %s" % (untouched[what], loaded[what]) for what in loaded}

    def run(name, call, draws=False):
        before = settings()
        try:
            found[name] = digest(call())
        except Exception as error:
            found[name] = "%s: %s" % (type(error).__name__, error)
        for what, value in settings().items():
            if value != before[what] and not (draws and what == "the generator of random"):
                found[name] = "changed %s from %s to %s" % (what, before[what], value)

    names = [n for n in c31.OPS if n != "schedule"]
    if plan.get("order") == "backwards":
        names = names[::-1]
    elif plan.get("order") == "shuffled":
        names = names[1::2] + names[::2]
    worlds = {w: c31.World(w) for w in c31.c10.WORLDS}
    for name in names:
        for which in worlds:
            run("%s, %s" % (name, which),
                lambda: c31.flat(c31.OPS[name](worlds[which])), False)
    for k in plan["scenarios"]:
        scenario = plans.crowd(2 * k, k)
        for seed in plan["seeds"]:
            def schedule():
                random.seed(seed)
                plan_found = plans.scheduler_of(scenario).generate(plan["iterations"], 0.5, 0.5)
                return c31.flat([str(plans.exported(plan_found, scenario))])
            run("schedule of crowd %d, seed %d" % (k, seed), schedule, True)
    return found


def main():
    plan = json.loads(sys.argv[1])
    if plan.get("thread"):
        import threading
        held = []
        thread = threading.Thread(target=lambda: held.append(program(plan)))
        thread.start()
        thread.join()
        found = held[0]
    else:
        found = program(plan)
    sys.stdout.write("\nRESULT " + json.dumps(found) + "\n")


if __name__ == "__main__":
    main()
