"""Removal and insertion operators keep their contracts in every reachable schedule."""
import copy
import itertools

from mc import choices, plans
from mc.core import Chooser, check, enumerate_choices
from celest.schedule.insertion_operators import (greedy_insertion, minimum_conflict_insertion,
                                                 minimum_opportunity_insertion)
from celest.schedule.removal_operators import (conflict_removal, opportunity_removal,
                                               priority_removal, random_removal)
from celest.schedule.scheduling_utils import initialize_solution

PROPERTY = "C27"
LEVEL = "model_checking"
RULE = ("breadth-first search over the schedules reachable from scenarios of 2 to 4 requests by any "
        "sequence of the initial heuristic, the four removal and three insertion operators with "
        "every amount and every random draw, merging equal handler states; each step is compared "
        "with the operator's contract (how many, which by rank, feasible, nothing else touched, "
        "nothing admissible left out); long walks over crowded schedules and schedules of dozens of requests follow; states are handler states, transitions operator calls")
ASSUMPTIONS = ["requests of equal rank may be taken in any order",
               "an insertion considers one start per window: midway plus half the duration, or "
               "the sample before the pitch reaches the look angle"]

MANY = 12                # above, the order of insertion is not retraced
INSERT = {"greedy": greedy_insertion, "opportunity": minimum_opportunity_insertion,
          "conflict": minimum_conflict_insertion, "initial": None}
REMOVE = {"random": random_removal, "priority": priority_removal,
          "opportunity": opportunity_removal, "conflict": conflict_removal}


def unpack(scenario):
    return [tuple(tuple(map(tuple, f)) if k == 0 else f for k, f in enumerate(r))
            for r in scenario]


def rank(kind, scenario, rows):
    by_index = {r[0]: r for r in rows}
    if kind == "priority":
        return lambda i: scenario[i][3]
    if kind == "opportunity":
        return lambda i: len(scenario[i][0])
    return lambda i: (plans.conflict_degree(by_index[i][2][0], rows) if by_index[i][2] else 0)


def check_removal(scenario, kind, number, before, after):
    planned, left = plans.entries_of(before), plans.entries_of(after)
    wanted = max(len(planned) - number, 0)
    check(len(left) == wanted, "%s removal of %d from %d leaves %d", kind, number, len(planned),
          len(left))
    check(all(planned.get(i) == p for i, p in left.items()),
          "%s removal changed a remaining request", kind)
    removed = set(planned) - set(left)
    if kind != "random" and removed and left:
        key = rank(kind, scenario, before)
        check(min(key(i) for i in removed) >= max(key(i) for i in left) - 1e-6,
              "%s removal of %d took %s and left %s", kind, number, sorted(removed), sorted(left))
    return frozenset(removed)


def check_insertion(scenario, kind, number, before, after):
    planned, now = plans.entries_of(before), plans.entries_of(after)
    check(all(now.get(i) == p for i, p in planned.items()),
          "%s insertion changed a scheduled request", kind)
    check(len(now) - len(planned) <= number, "%s insertion of %d scheduled %d", kind, number,
          len(now) - len(planned))
    fresh = [(i, p[1], p[2]) for i, p in now.items()]
    plans.judge(fresh, scenario)
    for i, p in now.items():
        window, start, duration = p
        check(window[0] <= start and start + duration <= window[1] + 1e-3,
              "request %d is booked in window %s at %r", i, window, start)
    if len(scenario) > MANY or max(len(r[0]) for r in scenario) > MANY // 2:
        if number >= len(scenario):
            for i in set(range(len(scenario))) - set(now):
                for k, start in enumerate(plans.candidates(scenario[i])):
                    check(not (plans.allowed(scenario[i], k, start)
                               and plans.free(start, scenario[i][1], fresh)),
                          "%s insertion leaves out request %d, which fits at slot %r", kind, i,
                          start)
        return
    windows_of = {r[0]: r[1] for r in before}
    if kind in ("greedy", "initial"):
        orders = plans.tied_orders([r[0] for r in before], lambda i: scenario[i][3], True)
    elif kind == "opportunity":
        orders = plans.tied_orders([r[0] for r in before], lambda i: len(scenario[i][0]))
    else:
        orders = [[r[0] for r in before]]
    for order in orders:
        choices_of_windows = []
        for i in order:
            if kind == "initial":
                choices_of_windows.append([sorted(windows_of[i])])
            elif kind == "conflict":
                choices_of_windows.append(list(plans.tied_orders(
                    windows_of[i], lambda w: plans.conflict_degree(w, before))))
            else:
                choices_of_windows.append([windows_of[i]])
        for combination in itertools.product(*choices_of_windows):
            wanted = plans.insert_rows(scenario, order, dict(zip(order, combination)), planned,
                                       number)
            if wanted == now:
                return
    check(False, "%s insertion of %d into %s gives %s, which no order explains (last expected %s)",
          kind, number, sorted(planned.items()), sorted(now.items()), sorted(wanted.items()))


def successors(ctx, scenario, handler):
    before = plans.view(handler, scenario)
    n = len(scenario)
    for kind, operator in INSERT.items():
        for number in ([n] if kind == "initial" else range(0, n + 2)):
            copy_ = copy.deepcopy(handler)
            if kind == "initial":
                initialize_solution(copy_)
            else:
                operator(copy_, number)
            after = plans.view(copy_, scenario)
            check(sorted((r[0], tuple(sorted(r[1]))) for r in after)
                  == sorted((r[0], tuple(sorted(r[1]))) for r in before),
                  "%s insertion lost requests or windows", kind)
            check(copy_.number_of_scheduled_requests == len(plans.entries_of(after)),
                  "the count of scheduled requests drifted in %s insertion", kind)
            check_insertion(scenario, kind, number, before, after)
            ctx.step()
            ctx.agreed()
            ctx.saw(("insert", kind, number, len(plans.entries_of(before)),
                     len(plans.entries_of(after))))
            yield after, copy_
    for kind, operator in REMOVE.items():
        for number in range(0, n + 2):
            results, removed, scaled = [], set(), set()

            def execute(chooser):
                copy_ = copy.deepcopy(handler)
                draws = choices.Draws(chooser)
                with choices.controlled(draws):
                    operator(copy_, number)
                scaled.update(d[0] for d in draws.log if d[0] == "random")
                after = plans.view(copy_, scenario)
                check(sorted((r[0], tuple(sorted(r[1]))) for r in after)
                      == sorted((r[0], tuple(sorted(r[1]))) for r in before),
                      "%s removal lost requests or windows", kind)
                check(copy_.number_of_scheduled_requests == len(plans.entries_of(after)),
                      "the count of scheduled requests drifted in %s removal", kind)
                removed.add(check_removal(scenario, kind, number, before, after))
                results.append((after, copy_))
                ctx.step()
                ctx.agreed()
            enumerate_choices(execute)
            planned = list(plans.entries_of(before))
            # (a number drawn from [0, 1) is only ever one of its ends here)
            if kind == "random" and not scaled:
                every = {frozenset(c) for c in
                         itertools.combinations(planned, min(number, len(planned)))}
                check(removed == every, "random removal of %d of %s can only take %s", number,
                      planned, sorted(map(sorted, removed)))
            ctx.saw(("remove", kind, number, len(planned)))
            yield from results


def search(ctx, scenario, depth, cap):
    scenario = unpack(scenario)
    handler = plans.handler_of(scenario)
    seen = {plans.view(handler, scenario)}
    frontier = [handler]
    expanded = 0
    for _ in range(depth):
        following = []
        for state in frontier:
            if expanded >= cap:
                ctx.note(exhaustive=False)
                break
            expanded += 1
            for after, copy_ in successors(ctx, scenario, state):
                if after not in seen:
                    seen.add(after)
                    following.append(copy_)
                    ctx.state((scenario, after))
        frontier = following
    ctx.count_max(states_of_one_scenario=len(seen))
    if not frontier:
        ctx.count_max(scenarios_explored_to_a_fixpoint=1)


def walk(ctx, scenario, length, stride):
    """One long sequence of operators on a crowded schedule, on one handler."""
    scenario = unpack(scenario)
    plans.use_horizon(plans.horizon(scenario))
    handler = plans.handler_of(scenario)
    n = len(scenario)
    steps = [(kind, number) for number in (1, n, 2, 3, n // 2, 0, n + 3)
             for kind in list(INSERT) + ["-" + r for r in REMOVE]]
    chooser = Chooser((), stride)
    for k in range(length):
        kind, number = steps[(k * stride + k // len(steps)) % len(steps)]
        before = plans.view(handler, scenario)
        if kind == "initial":
            initialize_solution(handler)
            number = n
        else:
            with choices.controlled(choices.Draws(chooser)):
                (INSERT[kind] if kind in INSERT else REMOVE[kind[1:]])(handler, number)
        after = plans.view(handler, scenario)
        check(sorted((r[0], tuple(sorted(r[1]))) for r in after)
              == sorted((r[0], tuple(sorted(r[1]))) for r in before),
              "%s lost requests or windows", kind)
        check(handler.number_of_scheduled_requests == len(plans.entries_of(after)),
              "the count of scheduled requests drifted in %s", kind)
        if kind in INSERT:
            check_insertion(scenario, kind, number, before, after)
        else:
            check_removal(scenario, kind[1:], number, before, after)
        ctx.step()
        ctx.agreed()
        ctx.state((scenario, after))
    plans.use_horizon()
    ctx.saw(("walk", n, stride))


def anyone(ctx, count, number, unplanned):
    """Random removal may take any of many scheduled requests."""
    scenario = [(((44 * i, 44 * i + 20),), 2, 44 * count, 1 + i % 10, 1, None)
                for i in range(count)]
    plans.use_horizon(plans.horizon(scenario))
    handler = plans.handler_of(scenario)
    initialize_solution(handler)
    if unplanned is not None:
        handler.unschedule_request(unplanned)
    before = plans.view(handler, scenario)
    taken, scaled = set(), set()

    def execute(chooser):
        copy_ = copy.deepcopy(handler)
        draws = choices.Draws(chooser)
        with choices.controlled(draws):
            random_removal(copy_, number)
        scaled.update(d[0] for d in draws.log if d[0] == "random")
        taken.update(check_removal(scenario, "random", number, before,
                                   plans.view(copy_, scenario)))
        ctx.step()
        ctx.agreed()
    enumerate_choices(execute, deviations=1)
    check(scaled or taken == set(plans.entries_of(before)), "random removal of %d of %d can only take %s",
          number, count, sorted(taken))
    plans.use_horizon()
    ctx.saw(("anyone", count, number, unplanned))


CROWDED = [
    # one window that every request wants, and alternatives for some
    [(((0, 12),), 2, 40, 3, 1, None), (((0, 12), (20, 32)), 2, 40, 7, 1, None),
     (((0, 12), (20, 32), (33, 39)), 2, 40, 3, 1, None)],
    [(((0, 12),), 4, 40, 1, 1, None), (((4, 16),), 4, 40, 1, 1, None),
     (((8, 20),), 4, 40, 9, 1, None), (((12, 24),), 4, 40, 2, 1, None)],
    [(((0, 8), (16, 24)), 1, 40, 5, 1, None), (((2, 10),), 1, 40, 5, 1, 10.0),
     (((4, 28),), 2, 30, 5, 5, -15.0), (((20, 24),), 1, 22, 8, 1, None)],
]
CROWDED += [
    # short requests within a long one, before, in and behind its middle
    [(((0, 24),), 7, 40, 9, 1, None), (((14, 26), (2, 14)), 1, 40, 3, 1, None),
     (((12, 26), (10, 24)), 2, 40, 2, 1, None)],
    # a first window each that fails one condition: quality, deadline, length, look angle
    [(((0, 7), (10, 40)), 2, 40, 9, 8, None), (((20, 32), (0, 12)), 2, 22, 5, 1, None),
     (((3, 8), (16, 36)), 3, 40, 3, 1, None), (((0, 3), (22, 38)), 1, 40, 2, 1, 12.0)],
]


def explore(ctx):
    two, three = list(plans.family(2)), list(plans.family(3))
    if ctx.thorough:
        work = [(s, 8, 10 ** 6) for s in two + three + CROWDED]
        work += [(s, 4, 10 ** 6) for s in list(plans.family(4))[::64]]
    else:
        work = [(s, 4, 10 ** 6) for s in two] + [(s, 3, 10 ** 6) for s in three[::12]]
        work += [(s, 4, 10 ** 6) for s in CROWDED]
    ctx.note(scenarios=len(work), depth=max(w[1] for w in work))
    ctx.sample(work[0])
    work.sort(key=lambda w: -len(w[0]) * w[1])
    ctx.cases(search, work, chunk=1)
    ctx.cases(walk, [(plans.crowd(n, v), 150 if not ctx.thorough else 600, stride)
                     for n in (5, 7, 9) for v in range(4) for stride in (1, 5, 13)], chunk=1)
    ctx.cases(walk, [(plans.multitude(n, v), 40 if not ctx.thorough else 120, 5 + 8 * v)
                     for n in (17, 24, 40) for v in range(2)], chunk=1)
    ctx.cases(walk, [(plans.patience(n, late, blocked), 22, 1) for n in (9, 14, 30, 70)
                     for late in (n // 2, n - 1) for blocked in (False, True)
                     if n < 40 or not blocked], chunk=1)
    ctx.cases(anyone, [(n, k, spare) for n in (13, 24, 40) for k in (1, 2)
                       for spare in (None, 0, n - 1)], chunk=1)
