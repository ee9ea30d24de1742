"""Nutation, precession, obliquity, Earth rotation and the Sun against ERFA."""
import erfa
import numpy as np

from mc import geo
from mc.core import check
from mc.env import angle_difference
from celest import units as u
from celest.coordinates import astronomical_quantities as aq
from celest.coordinates import nutation_precession_matrices as npm

PROPERTY = "C19"
LEVEL = "exploration"
RULE = ("every instant of 1800 to 2200 in steps of a third of a day, and each single instant of a "
        "sample as a one-element array and a scalar, is put through every astronomical quantity "
        "and compared with ERFA's IAU 2006/2000A routines; the matrices have to be rotations; "
        "distinct = distinct (span, quantity)")
ASSUMPTIONS = ["accuracies: nutation 0.5 arcsec, obliquity 0.2 arcsec, precession and bias "
               "0.02 arcsec (0.05 outside 1900 to 2100), fundamental arguments 0.003 degrees, Earth rotation 0.003 degrees, "
               "equation of time 5 s, Sun 0.012 degrees, equation of the equinoxes 0.04 s"]


def within(ctx, what, got, wanted, bound, julian, period=None):
    got, wanted = np.asarray(got, float), np.asarray(wanted, float)
    check(got.shape == wanted.shape, "%s has shape %s", what, got.shape)
    check(np.all(np.isfinite(got)), "%s is not a number", what)
    error = np.abs(angle_difference(got, wanted, period) if period else got - wanted)
    ctx.count_max(**{"largest deviation, " + what: float(error.max()) if error.size else 0.0})
    for i in np.nonzero(error > bound)[0][:1]:
        check(False, "%s at JD %r: %r and not %r", what, julian[i], got[i], wanted[i])
    ctx.agreed(got.size)


def rotation(what, m):
    eye = np.eye(3)
    check(np.abs(np.einsum("...ij,...kj->...ik", m, m) - eye).max() < 1e-12
          and np.abs(np.linalg.det(m) - 1).max() < 1e-12, "the %s matrix is not a rotation", what)


def angle_between(a, b):
    """Angles of the rotations taking a to b, in arcseconds."""
    d = a - b
    return np.degrees(np.sqrt(np.sum(d * d, axis=(-1, -2)) / 2)) * 3600


def span(ctx, first, last, step):
    julian = np.arange(first, last, step)
    quantity = u.Quantity(julian, u.jd2000)
    day, part = geo.split(julian)
    t = (julian - geo.J2000) / 36525
    quantities(ctx, julian, quantity, day, part, t)
    # matrices
    bias, precession, _ = erfa.bp06(day, part)
    for what, got, wanted, bound in (
            ("precession", npm.precession_matrix(quantity), precession,
             np.where(np.abs(t) <= 1, 0.02, 0.05)),
            ("bias", np.broadcast_to(npm.bias_matrix(), precession.shape), bias,
             np.full(t.shape, 0.002))):
        rotation(what, got)
        error = angle_between(got, wanted)
        ctx.count_max(**{"largest deviation, %s matrix" % what: float(error.max())})
        for i in np.nonzero(error > bound)[0][:1]:
            check(False, "%s matrix at JD %r is off by %r arcsec", what, julian[i], error[i])
    nutation = npm.nutation_matrix(quantity)
    rotation("nutation", nutation)
    error = angle_between(nutation, erfa.num06a(day, part))
    ctx.count_max(**{"largest deviation, nutation matrix": float(error.max())})
    for i in np.nonzero(error > 0.5)[0][:1]:
        check(False, "nutation matrix at JD %r is off by %r arcsec", julian[i], error[i])
    ctx.agreed(3 * len(julian))
    ctx.step(len(julian))
    ctx.saw(first)


def quantities(ctx, julian, quantity, day, part, t, view=lambda x: x):
    deg, arcsec = (lambda q: view(q.to(u.deg))), (lambda q: view(q.to(u.arcsec)))
    within(ctx, "Earth rotation angle", deg(aq.earth_rotation_angle(quantity)),
           np.degrees(erfa.era00(day, part)), 0.003, julian, 360)
    rotation_angle = deg(aq.earth_rotation_angle(quantity))
    check(np.all((rotation_angle >= 0) & (rotation_angle <= 360)), "Earth rotation angle range")
    names = ["Moon's elongation", "Sun's anomaly", "Moon's anomaly", "Moon's latitude argument",
             "Moon's node"]
    references = [erfa.fad03, erfa.falp03, erfa.fal03, erfa.faf03, erfa.faom03]
    for name, got, reference in zip(names, aq.nutation_angles(quantity), references):
        within(ctx, name, deg(got), np.degrees(reference(t)), 0.003, julian, 360)
    psi, eps = erfa.nut06a(day, part)
    longitude, obliquity = aq.nutation_components(quantity)
    within(ctx, "nutation in longitude", arcsec(longitude), np.degrees(psi) * 3600, 0.5, julian)
    within(ctx, "nutation in obliquity", arcsec(obliquity), np.degrees(eps) * 3600, 0.15, julian)
    mean = np.degrees(erfa.obl06(day, part)) * 3600
    within(ctx, "mean obliquity", arcsec(aq.mean_obliquity(quantity)), mean, 0.15, julian)
    within(ctx, "true obliquity", arcsec(aq.apparent_obliquity(quantity)),
           mean + np.degrees(eps) * 3600, 0.25, julian)
    mean_ra, apparent_ra = geo.sun(julian)
    within(ctx, "Sun's right ascension", deg(aq.sun_right_ascension(quantity)), mean_ra, 0.012,
           julian, 360)
    _, gast = geo.sidereal(julian)
    wanted = gast - apparent_ra / 15 - 24 * ((julian + 0.5) % 1) + 12
    within(ctx, "equation of time", deg(aq.equation_of_time(quantity)) / 15 * 3600,
           angle_difference(wanted, 0, 24) * 3600, 5.0, julian)
    # documented as dpsi cos(eps) / 15 with dpsi in arcseconds: seconds of time
    within(ctx, "equation of the equinoxes",
           view(aq.equation_of_equinoxes(quantity).data), np.degrees(erfa.ee06a(day, part)) * 240,
           0.04, julian)


def single(ctx, julian, form):
    data = {"scalar": float(julian), "array": np.array([julian]), "integer": int(julian),
            "integers": np.array([int(julian)])}[form]
    exact = np.array([float(np.ravel(data)[0])])
    day, part = geo.split(exact)
    quantities(ctx, exact, u.Quantity(data, u.jd2000), day, part, (exact - geo.J2000) / 36525,
               view=lambda x: np.reshape(x, (-1,)))
    ctx.saw((julian, form))


def explore(ctx):
    step = 1 / 3 if not ctx.thorough else 0.0173
    width = 3000 if not ctx.thorough else 400
    ends = (2378496.5, 2524593.5)
    jobs = [(float(a), float(min(a + width, ends[1])), step) for a in np.arange(*ends, width)]
    jobs.insert(0, (2440000.5, 2440000.5 + 30001 * step, step))
    ctx.note(instants=int((ends[1] - ends[0]) / step))
    ctx.sample({"span": ends, "step": step})
    ctx.cases(span, jobs, chunk=1)
    ctx.cases(single, [(j, f) for j in geo.EPOCHS for f in ("scalar", "array", "integer",
                                                            "integers")], chunk=4)
