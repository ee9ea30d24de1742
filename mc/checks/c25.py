"""The neighbourhood search returns the best solution it saw and shares no state."""
import itertools
import math

from mc import choices, plans
from mc.core import HarnessError, check, enumerate_choices
from celest.schedule.alns import ALNS

PROPERTY = "C25"
LEVEL = "model_checking"
RULE = ("the real search runs over a model problem whose repair operators may produce a better, "
        "by little or much, equal, slightly or much worse or complete solution; an explorer follows every sequence of "
        "operator choices, repair outcomes and acceptance draws up to the iteration bound, for "
        "several starting costs, cooling and decay factors, and fixed long paths (up to 1100 "
        "iterations) that go through the alternatives in turn; a reference search tracks current "
        "and best solution and the temperature; the search of the real scheduler is followed as "
        "well, for its length and its best; states are (iteration, current, best), transitions are choices")
ASSUMPTIONS = ["acceptance draws lie just below or just above the reference's acceptance "
               "probability"]


class Solution(list):
    """[cost, [history]]: nested, so that shallow copies would be noticed."""


def make(cost):
    return Solution([cost, [["start", cost]]])


class Trial:
    """One run of the real search next to the reference."""

    def __init__(self, chooser, start, destroys, repairs, iterations, p, l, outcomes, goal):
        self.chooser = chooser
        self.start, self.goal = start, goal
        self.iterations, self.p, self.l = iterations, p, l
        self.outcomes = outcomes
        self.destroys, self.repairs = destroys, repairs
        self.remove, self.add = 2, 3
        # the reference
        self.current = self.best = start
        self.temperature = 0.05 * start / math.log(0.5)
        self.weights = {"destroy": [1.0] * destroys, "repair": [1.0] * repairs}
        self.iteration = 0
        self.pending = None           # (destroy, repair, cost) of the iteration under way
        self.accepted = None          # decided by a draw
        self.phase = "destroy"
        self.probabilities = []       # (kind, weights offered, weights expected)
        self.trace = []

    # -- what the real search calls -------------------------------------
    def destroy(self, k):
        def operator(solution, number):
            self.settle()
            check(self.phase == "destroy", "a destroy operator ran out of turn")
            check(number == self.remove, "asked to remove %r items instead of %r", number,
                  self.remove)
            check(solution[0] == self.current, "iteration %d starts from cost %r and not from the "
                  "current solution %r", self.iteration, solution[0], self.current)
            check(len(solution[1]) and solution[1][-1][1] == self.current,
                  "the current solution was changed behind its back")
            self.marks = [list(m) for m in solution[1]]
            solution[1].append(["destroyed", k])
            solution[0] = None
            self.pending = [k, None, None]
            self.phase = "repair"
        return operator

    def repair(self, k):
        def operator(solution, number):
            check(self.phase == "repair", "a repair operator ran out of turn")
            check(number == self.add, "asked to add %r items instead of %r", number, self.add)
            check(solution[1][-1] == ["destroyed", self.pending[0]],
                  "the repair operator did not get the destroyed solution")
            outcome = self.outcomes[self.chooser.choose(len(self.outcomes), "outcome")]
            cost = {"better": self.best - 1, "equal": self.current, "worse": self.current + 1,
                    "slightly": self.current + abs(self.start or 1) * 2e-4,
                    "fraction": self.best - 2.0 ** -10 if self.iteration % 2 else self.best - 0.25,
                    "middle": (self.current + self.best) / 2, "goal": self.goal,
                    "zero": 0}[outcome]
            solution[1].pop()
            solution[1].append([self.iteration, cost])
            if self.iterations > 100:
                del solution[1][:-4]      # a long history would only be copied over and over
            solution[0] = cost
            self.pending[1:] = [k, cost]
            self.phase = "destroy"
        return operator

    def cost(self, solution):
        check(solution[0] is not None, "a destroyed solution was evaluated")
        return solution[0]

    def complete(self, solution):
        return solution[0] == self.goal

    # -- random draws ----------------------------------------------------
    def probability(self):
        cost = self.pending[2]
        if self.temperature * self.current == 0:
            return 0.0
        return math.exp(-100 * abs((cost - self.current) / (self.temperature * self.current)))

    def uniform(self):
        if self.pending is None or self.pending[2] is None:
            raise HarnessError("an unexpected draw")
        p = self.probability()
        value = [p * (1 - 1e-6), max(p * (1 + 1e-6), 1e-300)][self.chooser.choose(2, "accept")]
        value = min(value, 1 - 2.0 ** -53)
        check(self.accepted is None, "two acceptance draws in one iteration")
        check(self.pending[2] > self.current, "acceptance of a solution that is no worse is drawn")
        self.accepted = value <= p
        return value

    def choices(self, population, weights=None, **kw):
        self.settle()
        draws = choices.Draws(self.chooser)
        result = draws.choices(population, weights, **kw)
        kind, _, offered, _ = draws.log[-1]
        name = {self.destroys: "destroy", self.repairs: "repair"}.get(len(offered))
        if name:
            total = sum(self.weights[name])
            wanted = ([w / total for w in self.weights[name]] if total
                      else [1 / len(offered)] * len(offered))
            self.probabilities.append((name, offered, wanted, self.iteration))
        return result

    # -- the reference step -------------------------------------------------
    def settle(self):
        """Completes the reference's view of the previous iteration."""
        if self.pending is None or self.pending[2] is None:
            return
        i, j, cost = self.pending
        score = 0
        if cost < self.current:
            accept, score = True, 2
        elif cost == self.current:
            accept, score = True, 1
        else:
            accept = bool(self.accepted)
            if self.accepted is None and self.temperature * self.current != 0:
                check(False, "no acceptance was drawn for a worse solution")
            score = 1 if accept else 0
        if accept:
            self.current = cost
        if cost < self.best:
            self.best, score = cost, 3
        self.trace.append((cost, accept, score))
        for name, k in (("destroy", i), ("repair", j)):
            w = self.weights[name]
            w[k] = (1 - self.l) * w[k] + self.l * score / 6
        self.temperature *= self.p
        self.pending = self.accepted = None
        self.iteration += 1

    def run(self):
        initial = make(self.start)
        before = [initial[0], [list(m) for m in initial[1]]]
        search = ALNS(initial)
        search.add_cost_function(self.cost)
        search.add_destroy_functions([self.destroy(k) for k in range(self.destroys)])
        search.add_repair_functions([self.repair(k) for k in range(self.repairs)])
        search.add_completeness_function(self.complete)
        trial = self

        class Stream(choices.Draws):
            def random(self):
                return trial.uniform()

            def choices(self, *args, **kw):
                return trial.choices(*args, **kw)

        with choices.controlled(Stream(self.chooser)):
            result = search.solve(self.iterations, self.p, self.l, self.remove, self.add)
        self.settle()
        check([initial[0], initial[1]] == before, "the initial solution was changed")
        check(result is not initial and result[1] is not initial[1],
              "the result shares state with the initial solution")
        return result


def follow(ctx, start, destroys, repairs, iterations, p, l, outcomes, goal, deviations, judge,
           stride=0):
    total = [0]

    def execute(chooser):
        trial = Trial(chooser, start, destroys, repairs, iterations, p, l, outcomes, goal)
        result = trial.run()
        judge(ctx, trial, result)
        total[0] += len(chooser.choices)

    count, longest, _ = enumerate_choices(execute, deviations, stride=stride)
    ctx.step(total[0])
    ctx.agreed(count)
    ctx.count_max(longest_sequence=longest, sequences_of_one_problem=count)


def best_seen(ctx, trial, result):
    check(result[0] == trial.best, "cost %r was returned though %r was seen (%s)", result[0],
          trial.best, trial.trace)
    check(result[1][-1][1] == trial.best, "the returned solution was changed afterwards")
    if trial.best == trial.goal:
        reached = next((k for k, t in enumerate(trial.trace) if t[0] == trial.goal), None)
        wanted = 0 if trial.start == trial.goal else reached + 1
        check(trial.iteration == wanted, "the search went on for %d iterations after completion",
              trial.iteration - wanted)
    else:
        check(trial.iteration == trial.iterations, "%d iterations instead of %d", trial.iteration,
              trial.iterations)
    for k, (cost, accept, _) in enumerate(trial.trace):
        ctx.state((trial.start, k, cost, accept))
    ctx.saw((trial.start, trial.best, trial.current, trial.iteration))


def search(ctx, start, destroys, repairs, iterations, p, l, outcomes, goal, deviations,
           stride=0):
    follow(ctx, start, destroys, repairs, iterations, p, l, outcomes, goal, deviations, best_seen,
           stride)


def scheduled(ctx, scenario, iterations, deviations, stride):
    """The search as the scheduler uses it: costs are priorities, complete is all scheduled."""
    scenario = [tuple(tuple(map(tuple, f)) if k == 0 else f for k, f in enumerate(r))
                for r in scenario]
    plans.use_horizon(plans.horizon(scenario))
    total = [0]

    def execute(chooser):
        scheduler = plans.scheduler_of(scenario, plans.Watched)
        with choices.controlled(choices.Draws(chooser)):
            collection = scheduler.generate(iterations, 0.8, 0.5)
        total[0] += len(chooser.choices)
        rows = plans.exported(collection, scenario)
        gain, visited = plans.gain(scenario, rows), scheduler.visited
        check(gain >= max(visited, default=0), "priorities of %r were returned though %s were "
              "seen", gain, visited)
        if len(rows) < len(scenario):
            check(len(visited) == iterations, "the search of an incomplete schedule ended after "
                  "%d of %d iterations", len(visited), iterations)
        elif visited:
            whole = sum(request[3] for request in scenario)
            check(visited.index(whole) == len(visited) - 1, "the search went on after completion: "
                  "%s", visited)
        ctx.state((gain, tuple(visited)))
        ctx.saw((gain, len(visited), len(rows)))

    count, longest, _ = enumerate_choices(execute, deviations, stride=stride)
    ctx.step(total[0])
    ctx.agreed(count)
    plans.use_horizon()


OUTCOMES = ["worse", "better", "equal", "slightly", "middle", "goal"]


def problems(thorough):
    """(start, destroys, repairs, iterations, p, l, outcomes, goal, deviations)"""
    work = []
    for start in (-10, 0, 12.5, -1000):
        for p, l in ((0.8, 0.5), (0.0, 1.0), (1.0, 0.0)):
            for iterations in (0, 1, 2):
                work.append((start, 3, 2, iterations, p, l, OUTCOMES, -5000, None))
            work.append((start, 1, 2, 3, p, l, OUTCOMES, -5000, None))
            work.append((start, 2, 1, 4 if thorough else 3, p, l, OUTCOMES[:4], -5000, None))
            work.append((start, 3, 2, 6, p, l, OUTCOMES, -5000, 4 if thorough else 2))
            work.append((start, 3, 4, 9, p, l, OUTCOMES, -5000, 3 if thorough else 2))
            work.append((start, 2, 3, 5, p, l, ["goal", "worse"], start, None))
            # completeness without the least cost does not end the search
            work.append((start, 2, 2, 3, p, l, ["goal", "worse", "better"], start + 0.5, None))
            work.append((start, 1, 2, 5, p, l, ["goal", "better"], start - 2, None))
            work.append((start, 1, 2, 4, p, l, ["fraction", "worse", "equal"], -5000, None))
            work.append((start, 2, 3, 12, p, l, ["fraction", "slightly", "better"], -5000, 2))
            if thorough:
                work.append((start, 3, 2, 3, p, l, OUTCOMES, -5000, None))
            # long searches that go through all operators, outcomes and acceptances in turn
            for stride in (0, 1, 2, 3, 5):
                for few in ([0, 1, 2, 3, 4], [2, 3, 0], [3, 4, 1], [1, 3]):
                    few = [OUTCOMES[i] for i in few]
                    work.append((start, 4, 6, 60, p, l, few, -5000, 0, stride))
                    if thorough:
                        work.append((start, 5, 3, 250, p, l, few, -5000, 0, stride))
                        work.append((start, 2, 3, 30, p, l, few, -5000, 1, stride))
            work.append((start, 2, 3, 16, p, l, OUTCOMES[:5], -5000, 1, 3))
        # searches of many iterations
        for p, l in ((0.999, 0.1), (0.8, 0.5), (1.0, 0.0)):
            for iterations in (130, 300, 1100) + ((5000,) if thorough else ()):
                for stride, few in ((1, [0, 1, 2, 3]), (2, [3, 0, 1]), (3, [0, 3])):
                    few = [OUTCOMES[i] for i in few]
                    work.append((start, 4, 6, iterations, p, l, few, -50000, 0, stride))
    # reject everything long enough for weights and temperature to fade
    work.append((-7, 2, 3, 12, 0.5, 0.25, ["slightly", "better"], -5000, 2))
    return work


def explore(ctx):
    work = problems(ctx.thorough)
    ctx.note(problems=len(work), outcomes=OUTCOMES)
    ctx.sample(work[4])
    work.sort(key=lambda w: -w[3] * (w[8] is None))
    ctx.cases(search, work, chunk=1)
    many = []
    for count in (2, 3, 4, 5, 7, 9, 12) + ((16,) if ctx.thorough else ()):
        for variant in range(12):
            for stride in (0, 1, 3):
                many.append((plans.crowd(count, variant), 15 if not ctx.thorough else 60, 0, stride))
            if count < 6:
                many.append((plans.crowd(count, variant), 2, 1 if not ctx.thorough else 2, 0))
    ctx.cases(scheduled, many, chunk=2)
