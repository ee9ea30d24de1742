"""Operators are drawn with adapted weights, worse solutions with the annealed probability."""
from mc.checks import c25
from mc.core import check

PROPERTY = "C26"
LEVEL = "model_checking"
RULE = ("over every sequence of operator choices, repair outcomes and acceptance draws of C25, the "
        "selection probabilities offered to the random generator at each iteration are compared "
        "with reference weights, and every acceptance draw sits just below or just above the "
        "annealed probability (long paths included) so that a wrong temperature changes the path; states are weight "
        "vectors, transitions are choices")
ASSUMPTIONS = ["scores 3, 2, 1, 0 for a new best, better, accepted and rejected solution, "
               "normalised by 6; weights and probabilities agree to 1e-9"]


def adapted(ctx, trial, result):
    seen = {"destroy": 0, "repair": 0}
    for name, offered, wanted, iteration in trial.probabilities:
        for k, (a, b) in enumerate(zip(offered, wanted)):
            check(abs(a - b) <= 1e-9, "iteration %d: %s operator %d is drawn with probability %r "
                  "and not %r (%s)", iteration, name, k, a, b, trial.trace)
        seen[name] += 1
        ctx.state((name, tuple(round(w, 9) for w in wanted)))
    if trial.destroys != trial.repairs and trial.goal != trial.start:
        for name, count in seen.items():
            check(count == trial.iteration, "%d draws of a %s operator in %d iterations", count,
                  name, trial.iteration)
    ctx.agreed(len(trial.probabilities))
    ctx.saw(tuple(round(w, 6) for w in trial.weights["destroy"] + trial.weights["repair"]))


def search(ctx, start, destroys, repairs, iterations, p, l, outcomes, goal, deviations,
           stride=0):
    c25.follow(ctx, start, destroys, repairs, iterations, p, l, outcomes, goal, deviations,
               adapted, stride)


def explore(ctx):
    work = [w for w in c25.problems(ctx.thorough) if w[1] != w[2]]
    ctx.note(problems=len(work), outcomes=c25.OUTCOMES)
    ctx.sample(work[4])
    work.sort(key=lambda w: -w[3] * (w[8] is None))
    ctx.cases(search, work, chunk=1)
