"""Explorers, bookkeeping, replay artefacts and evidence shared by every check.

A check is a module `mc.checks.cNN` that defines

  PROPERTY     the property id
  explore(ctx) drives the exploration; every execution of the real code is made
               through ctx.case(fn, *args) where fn is a function of the module
               with JSON-able arguments, so that any failing case can be replayed
               on its own by `run --replay FILE`.

A case function receives the context first, raises `Violation` (or lets any exception
of the code under test escape) when the property is broken, and may report what it
observed with ctx.saw(key).
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import random as _random
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    pass


class HarnessError(Exception):
    """The harness itself misbehaved (nothing explored, a bound overrun)."""


CASE_SECONDS = {"quick": 240, "thorough": 800}     # cases take seconds
WORKER_BYTES = 8 << 30


class Hang(Exception):
    pass


def _hung(signum, frame):
    raise Hang("the case did not end")


def check(condition, message, *args):
    if not condition:
        raise Violation(message % args if args else message)


def jsonable(value):
    try:
        import numpy as np
        if isinstance(value, np.ndarray):
            return value.tolist()
        if isinstance(value, np.generic):
            return value.item()
    except ImportError:
        pass
    if isinstance(value, (list, tuple)):
        return [jsonable(v) for v in value]
    if isinstance(value, dict):
        return {str(k): jsonable(v) for k, v in value.items()}
    if isinstance(value, (str, int, float, bool)) or value is None:
        return value
    return repr(value)


class Context:
    def __init__(self, module, tier, seed):
        self.module = module
        self.property = module.PROPERTY
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = seed
        self.executions = 0
        self.transitions = 0
        self.compared = 0
        self.states = set()
        self.outcomes = set()
        self.samples = []
        self.notes = {}
        self.failures = []

    # -- observation ------------------------------------------------------
    def state(self, key):
        """Count a distinct state; returns True when it is new."""
        digest = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
        new = digest not in self.states
        self.states.add(digest)
        return new

    def step(self, count=1):
        self.transitions += count

    def saw(self, key):
        """Record an observed outcome (used to show exploration is not vacuous)."""
        self.outcomes.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def agreed(self, count=1):
        """Count comparisons of the implementation with the reference model."""
        self.compared += count

    def note(self, **kw):
        self.notes.update(kw)

    def sample(self, value, limit=3):
        if len(self.samples) < limit:
            self.samples.append(jsonable(value))

    # -- execution --------------------------------------------------------
    def case(self, fn, *args):
        """Run one case now; a failure is recorded and ends the exploration."""
        failure = run_case(self, fn, args)
        if failure is not None:
            self.failures.append(failure)
            raise StopExploration
        self.executions += 1

    def cases(self, fn, arg_list, chunk=None, workers=None):
        """Run many independent cases over all cores, in deterministic chunks."""
        arg_list = list(arg_list)
        workers = workers or int(os.environ.get("MC_WORKERS", "0")) or os.cpu_count() or 1
        workers = min(workers, len(arg_list))
        if workers <= 1:
            for args in arg_list:
                self.case(fn, *args)
            return
        if chunk is None:
            chunk = max(1, min(256, len(arg_list) // (workers * 4) or 1))
        pieces = [(i, arg_list[i:i + chunk]) for i in range(0, len(arg_list), chunk)]
        global _JOB
        _JOB = (self, fn)
        mp = multiprocessing.get_context("fork")
        best = None
        deadline = None
        with mp.Pool(workers, initializer=_limit_memory) as pool:
            results = pool.imap_unordered(_worker, pieces)
            while True:
                # after a failure, wait a little for an earlier (simpler) one
                try:
                    start, part = results.next(
                        None if deadline is None else max(deadline - time.time(), 0.01))
                except (StopIteration, multiprocessing.TimeoutError):
                    break
                self.executions += part["executions"]
                self.transitions += part["transitions"]
                self.compared += part["compared"]
                self.states |= part["states"]
                self.outcomes |= part["outcomes"]
                for s in part["samples"]:
                    self.sample(s)
                for key, value in part["notes"].items():
                    if isinstance(value, (int, float)) and not isinstance(value, bool):
                        self.notes[key] = max(value, self.notes.get(key, value))
                    else:
                        self.notes[key] = value
                if part["failures"]:
                    if best is None or start < best[0]:
                        best = (start, part["failures"][0])
                    deadline = deadline or time.time() + 5
        if best is not None:
            self.failures.append(best[1])
            raise StopExploration

    def count_max(self, **kw):
        for key, value in kw.items():
            self.notes[key] = max(value, self.notes.get(key, value))


class StopExploration(Exception):
    pass


_JOB = None


def _limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (WORKER_BYTES, WORKER_BYTES))


def _worker(piece):
    start, args_list = piece
    parent, fn = _JOB
    ctx = Context(parent.module, parent.tier, parent.seed)
    for args in args_list:
        failure = run_case(ctx, fn, args)
        if failure is not None:
            ctx.failures.append(failure)
            break
        ctx.executions += 1
    return start, {
        "executions": ctx.executions, "transitions": ctx.transitions,
        "compared": ctx.compared, "states": ctx.states, "outcomes": ctx.outcomes,
        "samples": ctx.samples, "failures": ctx.failures, "notes": ctx.notes,
    }


def run_case(ctx, fn, args):
    signal.signal(signal.SIGALRM, _hung)
    signal.alarm(CASE_SECONDS.get(ctx.tier, 800))
    try:
        fn(ctx, *args)
        return None
    except HarnessError:
        raise
    except (Exception, SystemExit) as error:  # anything the code under test raises
        return {
            "module": ctx.module.__name__,
            "function": fn.__name__,
            "args": jsonable(list(args)),
            "message": f"{type(error).__name__}: {error}",
            "where": traceback.format_exc(limit=-4),
        }
    finally:
        signal.alarm(0)


def pristine(fn, *args):
    """fn(*args) evaluated in a forked child, so that nothing it does lingers here."""
    return pristine_all(fn, [args])[0]


def _pristine_call(job):
    fn, args = job
    signal.signal(signal.SIGALRM, _hung)
    signal.alarm(CASE_SECONDS["quick"])
    try:
        return True, fn(*args)
    except (Exception, SystemExit) as error:
        return False, "%s: %s" % (type(error).__name__, error)
    finally:
        signal.alarm(0)


def pristine_all(fn, arg_list):
    """[fn(*args) for args in arg_list], each in a forked child of its own."""
    mp = multiprocessing.get_context("fork")
    workers = min(len(arg_list), int(os.environ.get("MC_WORKERS", "0")) or os.cpu_count() or 1)
    if multiprocessing.current_process().daemon:
        raise HarnessError("pristine evaluation inside a worker")
    with mp.Pool(workers, maxtasksperchild=1) as pool:
        results = pool.map(_pristine_call, [(fn, a) for a in arg_list], chunksize=1)
    values = []
    for ok, value in results:
        if not ok:
            raise Violation(value)
        values.append(value)
    return values


# -- stateless exploration of nondeterministic choices ----------------------
class Chooser:
    """Replays `prefix`, then takes the default choices; records the alternatives met.

    The default is choice 0, or with a `stride` one that goes through the alternatives."""

    def __init__(self, prefix=(), stride=0):
        self.prefix = list(prefix)
        self.stride = stride
        self.choices = []
        self.points = []

    def choose(self, alternatives, tag=""):
        if alternatives < 1:
            raise Violation("a choice was requested among no alternatives (%s)" % tag)
        index = len(self.choices)
        if index < len(self.prefix):
            pick = self.prefix[index]
            if pick >= alternatives:
                raise Violation("with the same draws the run went another way at draw %d (%s)"
                                % (index, tag))
        else:
            pick = (index * self.stride + index // 5 * bool(self.stride)) % alternatives
        self.choices.append(pick)
        self.points.append((alternatives, tag))
        return pick


def enumerate_choices(execute, deviations=None, horizon=None, stride=0):
    """Depth-first enumeration of every choice sequence `execute(chooser)` can ask for.

    `deviations` bounds the number of non-default choices of a sequence (None: no bound).
    Yields nothing; returns (executions, longest, completed) where `completed` tells that
    nothing was cut by `horizon`.
    """
    stack = [((), 0)]
    executions = longest = 0
    completed = True
    while stack:
        prefix, used = stack.pop()
        chooser = Chooser(prefix, stride)
        execute(chooser)
        executions += 1
        longest = max(longest, len(chooser.choices))
        for i in range(len(chooser.choices) - 1, len(prefix) - 1, -1):
            if deviations is not None and used + 1 > deviations:
                break
            for alternative in range(chooser.points[i][0] - 1, -1, -1):
                if alternative != chooser.choices[i]:
                    stack.append((tuple(chooser.choices[:i]) + (alternative,), used + 1))
        if horizon is not None and executions >= horizon:
            completed = not stack
            break
    return executions, longest, completed


def in_library(error):
    """The exception was raised by (or under) the code under test."""
    frames = traceback.extract_tb(error.__traceback__)
    return any("/celest/" in frame.filename for frame in frames)


def write_replay(name, failure):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", name + ".json")
    with open(path, "w") as file:
        json.dump(failure, file, indent=1)
        file.write("\n")
    return path


# -- running a check --------------------------------------------------------
def known_findings():
    """The findings listed in known_findings.txt: property -> [(tag, text)]."""
    found = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding: property="):
                head, _, text = line[len("finding: property="):].strip().partition(" ")
                found.setdefault(head, []).append(text)
    return found


def evidence(ctx, wall, violations):
    module = ctx.module
    level = getattr(module, "LEVEL", "exploration")
    coverage = {}
    if level == "model_checking":
        coverage["states"] = len(ctx.states)
        coverage["transitions"] = ctx.transitions
        coverage["traces_validated_against_impl"] = ctx.executions
    else:
        coverage["evaluations"] = ctx.executions if not ctx.compared else ctx.compared
        coverage["distinct_nontrivial"] = len(ctx.outcomes)
    coverage["rule"] = module.RULE
    coverage["samples"] = ctx.samples or ["(none recorded)"]
    coverage["exhaustive"] = bool(ctx.notes.pop("exhaustive", True)) and not violations
    coverage["executions_of_the_real_code"] = ctx.executions
    coverage["comparisons_with_the_reference"] = ctx.compared
    coverage["distinct_outcomes"] = len(ctx.outcomes)
    coverage.update({k: jsonable(v) for k, v in ctx.notes.items()})
    record = {
        "property": ctx.property, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": coverage, "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3), "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    path = os.path.join(HERE, "evidence", ctx.property + ".json")
    with open(path + ".tmp", "w") as file:
        json.dump(record, file, indent=1)
        file.write("\n")
    os.replace(path + ".tmp", path)
    return record


def run_property(name, tier):
    try:
        module = importlib.import_module("mc.checks." + name.lower())
    except Exception as error:
        if not in_library(error):
            raise
        # the library cannot even be imported or does not stand the first calls made on it
        print(traceback.format_exc(limit=-4))
        print("VIOLATION property=%s replay=%s" % (name, write_replay(name, {
            "module": "mc.checks." + name.lower(), "function": "import", "args": [],
            "message": "%s: %s" % (type(error).__name__, error)})))
        return 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    _random.seed(seed)
    ctx = Context(module, tier, seed)
    start = time.time()
    try:
        module.explore(ctx)
    except StopExploration:
        pass
    except Exception as error:
        # raised outside a case, while preparing the exploration
        if not isinstance(error, Violation) and not in_library(error):
            raise
        ctx.failures.append({"module": module.__name__, "function": "explore", "args": [],
                             "message": "%s: %s" % (type(error).__name__, error),
                             "where": traceback.format_exc(limit=-4)})
    wall = time.time() - start
    if not ctx.failures and not ctx.executions:
        raise HarnessError("nothing was explored")
    record = evidence(ctx, wall, len(ctx.failures))
    if ctx.failures:
        failure = ctx.failures[0]
        path = write_replay(ctx.property, failure)
        print(failure["message"])
        print("case: %s%s" % (failure["function"], json.dumps(failure["args"])[:2000]))
        print(failure["where"])
        print("VIOLATION property=%s replay=%s" % (ctx.property, path))
        return 1
    for text in known_findings().get(ctx.property, []):
        print("KNOWN-FINDING: property=%s %s" % (ctx.property, text))
    cover = record["coverage"]
    print("%s held: executions=%d states=%d transitions=%d comparisons=%d outcomes=%d "
          "wall=%.1fs" % (ctx.property, ctx.executions, len(ctx.states), ctx.transitions,
                          ctx.compared, cover["distinct_outcomes"], wall))
    return 0


def replay(path):
    failure = json.load(open(path))
    module = importlib.import_module(failure["module"])
    ctx = Context(module, "quick", 1)
    if failure["function"] in ("import", "explore"):
        return run_property(module.PROPERTY, "quick")
    again = run_case(ctx, getattr(module, failure["function"]), failure["args"])
    if again is None:
        print("the recorded case passes")
        return 0
    print(again["message"])
    print(again["where"])
    print("VIOLATION property=%s replay=%s" % (module.PROPERTY, path))
    return 1
