"""Writes properties.jsonl and MANIFEST.json from the table below."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, technique,
         state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mechanism=mechanism, observe=observe, note=note,
                  technique=technique, state=state))


UN, Q = "celest/units/core.py", "celest/units/quantity.py"

prop("C01", "Unit algebra is exact: products, quotients and powers mean what they say",
     "Any unit built from the library's units by products, quotients, powers and numeric factors "
     "stands for exactly that product: converting between it and any other unit of the same "
     "dimension multiplies by the ratio of the products of the base sizes (relative 1e-9). Its "
     "dimension is the sum of the base dimensions times their exponents, it is recognised as "
     "dimensionless exactly when these cancel, building it does not change its operands, and operands "
     "that are neither units nor numbers raise TypeError.",
     ["programs"], "every unit expression up to a nesting depth over all 18 units, integer and "
     "fractional exponents, scalars on either side",
     "tests check a handful of fixed two-unit products; cancellation, repetition and nesting "
     "interact, and the errors found here needed depth 2 or 3",
     [UN, "celest/units/utils.py", "celest/units/unit_initialization.py"],
     [("compound units keep scale, bases and powers and merge equal bases", UN),
      ("dimension of a compound from the dimension dictionary", UN)],
     ["Unit operators", "Quantity.to", "unit dimension"],
     "Bounded exhaustive: all expression trees to the depth stated in the evidence, each compared "
     "with exact rational exponent arithmetic. Trusts an independent table of unit sizes.",
     "bounded exhaustive enumeration of unit expressions against an exact-arithmetic model")

prop("C02", "The printed form of a unit denotes that unit",
     "The text of any unit, compound or named, and of its dimension reads back as the same numeric "
     "factor and the same exponent of every base unit or dimension. The text of a quantity is its "
     "data followed by the text of its unit.",
     ["programs"], "every unit expression up to a nesting depth",
     "tests compare a few fixed strings; grouping, signs and fractional exponents multiply",
     ["celest/units/display.py", UN, Q],
     [("fraction and exponent layout of compound strings", "celest/units/display.py")],
     ["str(unit)", "str(quantity)"],
     "Bounded exhaustive over expression trees; an independent parser reads the text back.",
     "bounded exhaustive enumeration of unit expressions, parse-back oracle")

prop("C03", "Chains of unit conversions keep the value and reject other dimensions",
     "Converting a quantity through any chain of units of its dimension gives the value the direct "
     "conversion gives (relative 1e-9), for scalars, integer and float arrays of any shape, and "
     "leaves the original data, unit and dtype as they were. A conversion to a unit of another "
     "dimension raises ValueError and changes nothing.",
     ["histories", "inputs"], "every chain of conversions up to a depth over every unit, every kind "
     "of data",
     "tests convert single values between one pair of units; in-place conversion, integer "
     "truncation and aliasing need particular data and sequences",
     [Q, UN], [("conversion factor from the bases of both units", Q)],
     ["Quantity.to", "Quantity.convert_to", "Quantity.data", "Quantity.unit"],
     "Model checking of the real class: states (unit, data), transitions conversions; depth in "
     "evidence; values from a fixed alphabet.",
     "explicit-state exploration of conversion chains of the real class against a reference model")

prop("C04", "Quantity arithmetic and comparisons agree with dimensional analysis",
     "Sums, differences, products, quotients and negations, in any order, of quantities (holding "
     "numbers or arrays) and plain numbers have the value and the dimension of physics (relative 1e-9), whatever units the "
     "operands are in, and leave the operands as they were. Comparisons compare physical values "
     "element by element; adding or ordering incompatible dimensions raises an error "
     "instead of giving a number.",
     ["programs", "histories"], "every sequence of operators and comparisons up to a depth over an "
     "alphabet of operands",
     "tests try single operators on one pair of units; mixed units, reflected operands and chains "
     "are not reached",
     [Q, UN], [("operators convert the right operand to the left unit", Q)],
     ["Quantity operators"],
     "Model checking of the real class over operation sequences; values from a fixed alphabet; "
     "comparisons only where values are exactly equal or clearly different.",
     "explicit-state exploration of operator sequences against an SI reference model")

T, A_ = "celest/coordinates/transforms.py", "celest/coordinates/astronomical_quantities.py"
CO = "celest/coordinates/coordinate.py"

prop("C05", "Every chain of frame conversions leads back to the same place",
     "Converting positions through any chain of the celestial, terrestrial and geodetic frames "
     "ends at the place they started from (1 cm plus 1e-11 of the distance), with the same times in "
     "the same order, in valid latitude and longitude ranges. Azimuth and elevation from a ground "
     "location do not depend on the frame the position is given in.",
     ["histories", "inputs"], "every conversion chain up to a depth from every frame over batches "
     "of places (below the surface to lunar distance, poles, date line) and epochs 1900-2100",
     "tests check single conversions of one track",
     [T, CO], [("the conversion dispatch of a position", CO), ("inverse rotations", T)],
     ["Coordinate.convert_to"],
     "Model checking of the real conversions: states (frame, batch), transitions conversions.",
     "explicit-state exploration of conversion chains, closure under round trips")

prop("C06", "Celestial and terrestrial frames differ by the Earth's actual orientation",
     "At any epoch from 1800 to 2200 the conversion between the celestial (GCRS) and terrestrial "
     "(ITRS) frames is a rigid, orientation-preserving rotation, the same for every vector, unit "
     "and for velocities, and the exact inverse in the other direction. It agrees with the IAU "
     "2006/2000A Earth orientation without polar motion within 0.5 arcsecond of the pole and 4 "
     "arcseconds about it (8 before 1950 and after 2100).",
     ["inputs"], "every epoch of a grid over 400 years, all axes, both directions",
     "tests compare one track of a few days to 0.5 km",
     [T, "celest/coordinates/nutation_precession_matrices.py", A_],
     [("bias-precession-nutation and spin rotations", T)],
     ["Coordinate.convert_to(ITRS)", "Coordinate.convert_to(GCRS)"],
     "Exhaustive over the epoch grid in evidence, oracle is ERFA (independent implementation).",
     "bounded exhaustive enumeration of epochs and axes against an independent Earth model")

prop("C07", "Geodetic coordinates and altitudes are those of the WGS84 ellipsoid",
     "Latitude, longitude and height convert to terrestrial coordinates and back as on the WGS84 "
     "ellipsoid (1 mm plus 1e-11 of the distance, 3e-9 degrees), everywhere from 10 km below to "
     "400000 km above the surface including the poles, the equator and the date line. Satellite "
     "altitudes and the coordinates and radius of ground locations follow the same ellipsoid, "
     "whatever the units and whatever else is in the batch.",
     ["inputs"], "every combination of latitude, longitude, height, unit and batch alphabets",
     "tests allow kilometres on one track; edge latitudes, heights and mixed batches are absent",
     [T, "celest/satellite.py", "celest/coordinates/ground_location.py", "celest/constants.py"],
     [("iteration for the geodetic latitude", T), ("ground location coordinates",
      "celest/coordinates/ground_location.py")],
     ["Coordinate.convert_to(WGS84)", "Satellite.altitude", "GroundLocation.itrs_x"],
     "Exhaustive over the alphabets; the oracle is the forward formula and ERFA's closed form.",
     "bounded exhaustive enumeration of geodetic inputs against closed-form models")

prop("C08", "Azimuth and elevation are measured in the local geodetic horizon",
     "From any ground location, poles included, a target in a given east-north-up direction and "
     "range has that azimuth clockwise from north, from 0 to 360, and that elevation above the geodetic "
     "horizon (2e-5 degrees plus the effect of 1 cm), in every input frame and unit. The result "
     "keeps the times and the location.",
     ["inputs"], "every pair of location and target direction, range and frame",
     "tests compare one track above one city",
     [T, "celest/coordinates/ground_location.py", "celest/coordinates/frames/azel.py"],
     [("horizon axes and angles", T)], ["Coordinate.convert_to(AzEl, location)"],
     "Exhaustive over the alphabets against vectors in the location's own axes.",
     "bounded exhaustive enumeration of location and target pairs against vector geometry")

ALLF = [T, "celest/satellite.py", "celest/time.py", A_,
        "celest/coordinates/nutation_precession_matrices.py"]

prop("C09", "Every sample of a batch is handled as if it were alone",
     "For every operation on arrays (frame conversions, altitude, distance, look angle, attitude, "
     "all times and astronomical quantities) row i of the result is the result for sample i alone, "
     "whatever the other samples, their number and their order; the empty batch gives an empty "
     "result.",
     ["inputs"], "every batch up to a length (all orders and repetitions) of a pool of dissimilar "
     "samples, for every operation",
     "tests use one smooth track, where reductions over the batch go unnoticed",
     ALLF, [("vectorised numpy expressions without reductions over the batch", T)],
     ["results of all array operations"],
     "Exhaustive over batches up to the bound for each of 50 operations; 1e-7 degrees/km.",
     "bounded exhaustive enumeration of batches, singleton-result oracle")

prop("C10", "Operations leave their inputs alone and do not depend on history",
     "No operation on frames, satellites, locations, clocks or quantities changes its inputs or "
     "arrays of the caller, shares memory with them through its result, or depends on which "
     "operations ran before, on the same or on other objects: the same call always gives the same "
     "result.",
     ["histories"], "every sequence of operations up to a depth on one set of shared objects and a "
     "second set",
     "tests build fresh objects for each assertion and never look back at the inputs",
     ALLF + [Q, "celest/coordinates/frames/base_positions.py"],
     [("operations work on converted copies", Q)],
     ["inputs, results and repeated results"],
     "Model checking of operation sequences over shared objects with bitwise comparison to results "
     "from fresh processes.",
     "explicit-state exploration of operation histories with state comparison after each step",
     [("shared frames, satellite, clock", "what the caller still holds", "harness")])

prop("C11", "Coordinate containers accept exactly well formed data and give it back",
     "A coordinate container can be built exactly when its times and coordinates are one "
     "dimensional arrays of equal length, and then returns each array, unit and order unchanged. "
     "Conversions and satellites accept exactly the frames they document and reject others with an "
     "error instead of computing with them.",
     ["inputs"], "every combination of array shapes for every container and every consumer",
     "tests try one or two wrong shapes",
     ["celest/coordinates/frames/base_positions.py", CO, "celest/satellite.py"],
     [("shape validation", "celest/coordinates/frames/base_positions.py")],
     ["constructors", "component properties", "to_numpy"],
     "Exhaustive over shapes 0-d, 1-d of length 0 to 3 and 2-d for each argument.",
     "bounded exhaustive enumeration of argument shapes against the documented contract")

GL = "celest/coordinates/ground_location.py"
prop("C12", "Ground locations exist exactly within the Earth's coordinate limits",
     "A ground location can be created exactly when its latitude is within 90 degrees and its "
     "longitude within 180 degrees of zero, in whatever angular unit they are given; otherwise a "
     "ValueError is raised. It returns latitude, longitude and height with the given values and "
     "units, and its representation rebuilds it.",
     ["inputs"], "every combination of angles on, inside and beyond the limits, heights, number "
     "types and units", "tests use degrees only", [GL], [("limit checks", GL)],
     ["GroundLocation"], "Exhaustive over the alphabets; values within rounding of a limit in "
     "converted units are left out.",
     "bounded exhaustive enumeration of limit values and units")

prop("C13", "The printed form of a ground location reads back as that location",
     "The text of a ground location shows degrees, minutes and seconds in ISO 6709 form with minutes "
     "and seconds below 60 and the right hemisphere letters (zero is north and east), and reads back "
     "within half of the last printed digit (0.005 arcseconds) of its angles and of its height in "
     "its unit.",
     ["inputs"], "angles on and around every kind of carry, in every hemisphere and unit",
     "tests print a few angles away from carries",
     ["celest/angle_strings.py", GL], [("sexagesimal splitting", "celest/angle_strings.py")],
     ["str(GroundLocation)"], "Exhaustive over carries and limits, parse-back oracle.",
     "bounded exhaustive enumeration of carry boundaries, parse-back oracle")

SA = "celest/satellite.py"
prop("C14", "Attitudes turn the camera from nadir onto the target",
     "For a satellite given in the celestial frame, the roll, pitch and yaw for a ground location, "
     "applied to the orbit's local frame (z to the Earth's centre, y against the orbit normal) turn "
     "the nadir axis onto the direction from the satellite to the location (1e-6 degrees plus 1 mm) "
     "by the shortest rotation. Each sample carries its own time and the location asked for.",
     ["inputs"], "every orbit of a family at every anomaly of a ring for every target of a set",
     "tests only check types and one track of stored values",
     [SA, T, "celest/coordinates/frames/attitude.py"],
     [("rotation between nadir and line of sight", SA), ("orbit frame", T)],
     ["Satellite.attitude"], "Exhaustive over the orbit/target product; conversions trusted to "
     "C05/C06; angle conventions are those of the existing tests.",
     "bounded exhaustive enumeration of orbit geometries against vector geometry")

prop("C15", "Distance, look angle and altitude obey the geometry of the scene",
     "The distance is the length of the line from the satellite to the location, the look angle is "
     "the angle at the satellite between that line and the direction to the Earth's centre (1e-6 "
     "degrees), and the altitude is the height above the ellipsoid, in every frame and unit. A "
     "satellite straight above a location on its geocentric line has look angle 0 (3e-6 degrees) "
     "and never NaN.",
     ["inputs"], "every pair of satellite place and ground location, frames and units",
     "tests compare stored values of one track",
     [SA], [("vector expressions", SA)], ["Satellite.distance", "Satellite.look_angle",
                                         "Satellite.altitude"],
     "Exhaustive over the alphabets against vector geometry.",
     "bounded exhaustive enumeration of scenes against vector geometry")

TI = "celest/time.py"
prop("C16", "Calendar dates and civil times follow the calendar on every day",
     "For every instant from the year -4700 to 6000 the calendar date is that of the Julian calendar "
     "until 4 October 1582 and of the Gregorian calendar from 15 October 1582, civil times agree to "
     "40 microseconds, and the day of the year counts from 1 January with the calendar's leap years. "
     "Arrays, single values and time offsets give the same answers.",
     ["histories", "inputs"], "every single day of 10700 years, several instants of each",
     "tests check a few dates of two centuries",
     [A_, TI], [("calendar arithmetic", A_), ("civil time from the date", TI)],
     ["Time.datetime", "from_julian", "day_of_year"],
     "A calendar automaton steps through every day; datetime only for years 1 to 6000.",
     "exhaustive stepping of a calendar automaton next to the implementation")

prop("C17", "Solar times and hour angles follow the clock and the Sun",
     "Mean solar time advances with the clock and by an hour per 15 degrees of longitude, true solar "
     "time differs from it by the equation of time and agrees with the actual Sun within 5 seconds "
     "from 1800 to 2200, hour angles are the solar times less 12 hours, and universal time is the "
     "clock of the Julian date. All are in hours of the documented range for scalar and array "
     "longitudes.",
     ["inputs"], "every step of four centuries and every minute of sample days, every longitude of a "
     "grid", "tests sample a handful of instants",
     [TI, A_], [("equation of time", A_), ("solar time", TI)],
     ["Time.true_solar_time", "Time.mean_solar_time", "Time.true_hour_angle",
      "Time.mean_hour_angle", "Time.ut1"],
     "Exhaustive over the grid; Sun from ERFA.",
     "bounded exhaustive enumeration of instants and longitudes against a clock model and ERFA")

prop("C18", "Sidereal times follow the Earth's rotation",
     "Greenwich mean and apparent sidereal times agree with the IAU 2006 Earth rotation within 0.3 "
     "seconds from 1800 to 2200 and stay within 0 to 24 hours, apparent less mean being the equation "
     "of the equinoxes. Local sidereal times agree within 2 seconds, grow by an hour per 15 degrees "
     "east, and differ from each other as the Greenwich ones do.",
     ["inputs"], "every step of four centuries and every minute of sample days, every longitude",
     "tests sample a few instants with wide tolerances",
     [TI, A_], [("sidereal polynomials", TI), ("equation of the equinoxes", A_)],
     ["Time.gmst", "Time.gast", "Time.lmst", "Time.last"],
     "Exhaustive over the grid; ERFA with all time scales taken equal.",
     "bounded exhaustive enumeration of instants and longitudes against ERFA")

prop("C19", "Nutation, precession, obliquity and the Sun agree with the IAU models",
     "From 1800 to 2200 the nutation angles (0.5 arcsec), obliquities (0.2 arcsec), precession and "
     "bias matrices (0.05 arcsec), lunisolar arguments (0.003 degrees), Earth rotation angle (0.003 "
     "degrees), equation of the equinoxes (0.04 s), equation of time (5 s) and the Sun's right "
     "ascension (0.012 degrees) agree with the IAU 2006/2000A models. Matrices are rotations, and "
     "arrays and single values give the same numbers.",
     ["inputs"], "every third of a day of four centuries, every quantity, array and scalar forms",
     "tests compare a few instants, where periodic terms can cancel",
     [A_, "celest/coordinates/nutation_precession_matrices.py"],
     [("series and polynomials", A_), ("matrices",
      "celest/coordinates/nutation_precession_matrices.py")],
     ["functions of the astronomical quantities module"],
     "Exhaustive over the grid; the oracle is ERFA.",
     "bounded exhaustive enumeration of instants against ERFA")

WG, WH = "celest/encounter/window_generator.py", "celest/encounter/window_handling.py"
prop("C20", "Visible time windows are exactly the visible, suitably lit passes",
     "The windows generated for a satellite and a location are exactly the maximal runs of samples "
     "with elevation above the threshold and, for day or night lighting, with the Sun above or "
     "below the horizon, in time order; each opens at the sample before its first visible one (the "
     "first sample if none precedes) and closes at its last visible one. Passes in progress at "
     "either end, gaps, single samples and satellites that are never visible are handled, and each "
     "window carries the attitude for that location.",
     ["histories", "inputs"], "every visibility history up to n samples with every history of the "
     "Sun and every lighting rule; real orbits",
     "tests use one real track, with few passes and no boundary patterns",
     [WG, WH], [("edge detection over the visibility mask", WG)],
     ["generate_vtws"], "Model checking: every binary visibility/Sun history realised by a real "
     "satellite and compared with a two-state automaton. The missing ephemeris file is replaced by "
     "a stand-in kernel.",
     "explicit-state: all visibility histories against a two-state automaton",
     [("visible / not visible", "automaton state of a pass", WG)])

prop("C21", "A window collection is a list of windows of one kind",
     "After any sequence of additions, iterations (complete, abandoned, nested, or stepped with next()), index and slice "
     "accesses and prints, a window collection holds exactly the windows added, in order, and every "
     "iteration starts at the first. It accepts windows of one kind only and rejects anything else "
     "with TypeError, unchanged.",
     ["histories"], "every operation sequence up to a depth",
     "tests run single operations on fresh collections",
     [WH], [("list of windows and type test", WH)], ["WindowCollection"],
     "Model checking of operation sequences against a plain list.",
     "explicit-state exploration of operation sequences against a list model",
     [("held windows and iteration position", "contents of the collection", WH)])

SC, RH = "celest/schedule/scheduler.py", "celest/schedule/request_handler.py"
IN, RM = "celest/schedule/insertion_operators.py", "celest/schedule/removal_operators.py"
AL, SU = "celest/schedule/alns.py", "celest/schedule/scheduling_utils.py"

prop("C22", "Every schedule is feasible, whatever the random draws",
     "In every schedule the scheduler can return, each request is observed at most once, for its "
     "requested duration, entirely inside one of its visible windows, before its deadline, at no "
     "less than its minimum image quality and at its desired look angle if it has one, and no two "
     "observations overlap. This holds for every outcome of the random choices made by the search.",
     ["schedules", "inputs"], "every sequence of random draws for 0-2 iterations (bounded deviations "
     "beyond) over a family of scenarios, and real orbits",
     "tests run one random search on one track",
     [SC, IN, RM, AL, RH, SU], [("admission tests of a candidate start", IN)],
     ["Scheduler.generate"], "Model checking: the random generator is replaced by an explorer that "
     "enumerates all draws; an independent judge checks each schedule.",
     "stateless model checking over all random-choice sequences of the real scheduler",
     [("handler state and ALNS weights", "current and best solution", AL)])

prop("C23", "The returned schedule is faithful to the requests and no worse than greedy",
     "The returned windows carry the location, duration and start of the requests they fulfil and "
     "the attitude of the sample nearest the start, and their total priority is never below that of "
     "a plain priority-first schedule nor of any schedule the search built on its way. No request is left out that would fit at the start the "
     "scheduler considers for it. Adding requests and generating again keeps all this, with every "
     "earlier request still considered.",
     ["schedules", "histories"], "every sequence of random draws over the scenario family, and "
     "histories of add and generate calls",
     "tests check types and counts of one run",
     [SC, AL, SU], [("best solution kept by the search", AL), ("export of scheduled requests", SC)],
     ["Scheduler.add_request", "Scheduler.generate"],
     "Model checking over all random draws against a reference greedy scheduler.",
     "stateless model checking over all random-choice sequences and call histories")

prop("C24", "Request bookkeeping survives every history of its operations",
     "After any sequence of adding, scheduling, rescheduling, unscheduling and sorting, the request "
     "container holds the same requests with the same data, its counts of requests and scheduled "
     "requests are right, and each scheduled request still refers to the window, start and duration "
     "it was scheduled with. Sorts order by priority, opportunity, conflict degree or rise time and "
     "change nothing else.",
     ["histories"], "every history of operations up to a depth, merging equal states",
     "tests run single operations on one fixed handler",
     [RH], [("record list, counters and index remapping", RH)], ["RequestHandler"],
     "Model checking: breadth-first search over the real class with a reference of plain records.",
     "explicit-state breadth-first search of the real class against a reference model",
     [("requests, counters", "scheduled flags, window indices, starts", RH)])

prop("C25", "The neighbourhood search returns the best solution it saw",
     "Whatever operators and acceptances are drawn, the search returns a solution with the least "
     "cost among all solutions it evaluated, stops at the iteration limit or as soon as the best solution is complete, "
     "continues each iteration from a solution accepted by the annealing rule, and never lets an "
     "operator's later changes reach the returned or current solution.",
     ["schedules"], "every sequence of operator choices, repair outcomes and acceptances up to an "
     "iteration bound, for starting costs, cooling and decay factors",
     "tests run random searches and look at single numbers",
     [AL], [("copying before destroy/repair and best/current update", AL)], ["ALNS.solve"],
     "Model checking of the real search on a model problem against a reference search.",
     "stateless model checking of the real search over all choice sequences",
     [("current, best, temperature, weights", "search state", AL)])

prop("C26", "Operators are drawn by adapted weights and worse solutions by annealing",
     "At each iteration every operator is drawn with probability proportional to its weight, which "
     "after the iteration becomes, for the two operators used only, (1 - l) times the old weight plus "
     "l times the score earned (3/6, 2/6, 1/6 or 0 for a new best, better, accepted or rejected "
     "solution). A solution worse than the current one is accepted with probability "
     "exp(-100 |increase / (temperature * current cost)|), the temperature falling by the cooling "
     "factor each iteration from 0.05 * initial cost / ln 0.5.",
     ["schedules"], "every sequence of operator choices, repair outcomes and acceptances up to an "
     "iteration bound",
     "tests check single weight updates",
     [AL], [("weight update, roulette selection, annealing", AL)], ["ALNS.solve"],
     "Model checking along all paths of C25, probabilities compared to 1e-9.",
     "stateless model checking with probabilities compared at every choice point")

prop("C27", "Removal and insertion operators keep their contracts in every schedule",
     "From any reachable schedule and for any random draw, a removal operator unschedules exactly "
     "the number asked (or all scheduled if fewer), by its ranking (random, highest priority, most "
     "opportunities, highest conflict), and an insertion operator schedules, in the order of its "
     "ranking, up to the number asked of unscheduled requests that admit a start, leaving out none "
     "that would fit. Everything else stays as it was.",
     ["histories", "schedules"], "every schedule reachable by operator sequences and draws from a "
     "family of scenarios", "tests run each operator once on one fixed schedule",
     [IN, RM, RH, SU], [("ranking sorts", RH), ("insertion loop", IN), ("removal loops", RM)],
     ["operator functions"], "Model checking: breadth-first search over reachable handler states.",
     "explicit-state breadth-first search over operator sequences against contracts",
     [("handler state", "which request is scheduled where", RH)])

prop("C28", "Requests with a desired look angle start where the pitch passes it",
     "A request with a desired look angle is scheduled only at a sample within one sample of an "
     "instant inside its window at which the pitch towards the target passes the desired angle. If "
     "the pitch at the two ends of the window lies on opposite sides of the angle such a sample is "
     "found, in whatever angular unit both are given, and the request is scheduled there if its "
     "other constraints allow every such start.",
     ["inputs"], "every pitch profile of falling, flat and rising steps up to a length, every window "
     "and desired angle", "tests search one profile",
     [IN], [("bisection over the pitch samples", IN)],
     ["insertion operators"], "Exhaustive over profiles, windows, angles and operators.",
     "bounded exhaustive enumeration of pitch profiles against a crossing model")

FS = "celest/file_save.py"
prop("C29", "Saved text files hold exactly the saved data",
     "After any history of saves by coordinates, satellites, window collections and text writers, "
     "each named file (with .txt appended unless given) holds exactly what was last saved under its "
     "name: header, layers in order, column names with units, and one row per sample in order whose "
     "numbers read back to the printed precision. No other file is touched, and saving nothing "
     "raises an error.",
     ["histories"], "every sequence of layer, write and save operations up to a depth",
     "tests check that files exist",
     [FS, WH, SA, "celest/coordinates/frames"], [("layer writer", FS)],
     ["save_text_file", "TextFileWriter"],
     "Model checking of save histories in a scratch directory; files are read back after every "
     "step.", "explicit-state exploration of save histories, parse-back oracle",
     [("files of a directory, pending layers", "what each file says", FS)])

prop("C30", "Malformed calls are rejected at once and leave everything as it was",
     "A call with a wrong kind of object, frame, unit, dimension, shape, angle, threshold or "
     "lighting rule, with something missing, or with nothing to save or schedule raises the "
     "documented error (ValueError, TypeError, ArithmeticError, IndexError) at the call, at any "
     "point of any history of proper calls, and the session continues as if the call had not been "
     "made: no request, window, layer, file or value is added, lost or changed.",
     ["histories"], "every history of proper calls up to a depth with every malformed call in "
     "every place", "tests make few malformed calls, and look at the exception only",
     [CO, SA, WG, WH, SC, "celest/coordinates/frames/base_positions.py",
      "celest/coordinates/ground_location.py", TI, Q],
     [("lighting and threshold guards", WG), ("container guards",
                                             "celest/coordinates/frames/base_positions.py")],
     ["constructors", "convert_to", "generate_vtws", "add_request", "add_window", "generate"],
     "Model checking of histories with malformed calls against the same history without them.",
     "explicit-state exploration of call histories, differential against undisturbed histories",
     [("session", "requests, windows, layers, files and values a user can see", SC)])

prop("C31", "Operations running at the same time do not disturb each other",
     "Two operations running in two threads, on the same inputs (which none of them changes) or "
     "on different ones, give exactly the results each gives alone, wherever one is preempted by "
     "the other: conversions, geometry, clocks, astronomy, windows, unit algebra, greedy "
     "scheduling, printing and saving to different files keep no hidden common state.",
     ["schedules"], "every line of the library an operation executes as a point of preemption by "
     "another operation", "tests run one operation at a time",
     [T, A_, SA, WG, FS, UN, Q], [("pure functions of their arguments", T)],
     ["results of concurrent operations"],
     "Model checking of thread interleavings under the check's own scheduler (one preemption in "
     "every place; two in the thorough tier).",
     "stateless exploration of thread interleavings with a preemption bound",
     [("point of preemption", "which lines of both operations have run", T)])

prop("C32", "Results depend on the numbers given, not on how their arrays are stored",
     "Every operation gives the same result for the same numbers whether its arrays are plain, "
     "strided, reversed, read-only, big-endian, unaligned, memory mapped, columns of a matrix, "
     "masked or of a subclass of ndarray, and whole numbers count the same as integers, signed or not, of "
     "any width that holds them; the caller's arrays are left as they were.",
     ["inputs"], "every operation, way of storing an array, choice of the array stored so and "
     "batch of samples up to a length", "tests use fresh float arrays",
     [T, A_, SA, TI, CO], [("array arithmetic", T)],
     ["frame conversions", "Satellite", "Time", "astronomical quantities"],
     "Exhaustive over operations, storages and short batches.",
     "bounded exhaustive enumeration of array storages, differential against plain arrays")


prop("C33", "Copies and pickles work like the original and go their own way",
     "A copy.copy, deep copy or pickle (any protocol, in this or another process) of any object "
     "- quantity, unit, position, attitude, ground location, time, satellite, window, window "
     "collection, request handler, scheduler, report writer - gives the results the original "
     "gives under every operation. A deep copy or an unpickled object shares nothing that changes: "
     "whatever is done to one of the two afterwards, the other behaves as if it were alone.",
     ["histories", "inputs"], "every object, way of copying and operation; every history before "
     "the copy and on each side after it, up to a depth",
     "tests copy nothing; the schedule search relies on deep copies of its requests, and "
     "multiprocessing on pickles",
     [WH, RH, SC, SA, CO, Q, UN, FS],
     [("the search works on deep copies of the requests", "celest/schedule/alns.py")],
     ["copy.deepcopy", "pickle", "every public class"],
     "Exhaustive over objects, ways, operations and short histories on both sides of a copy; "
     "shallow copies are judged by their results only.",
     "explicit-state exploration of forked histories, each side against a reference of its own")


prop("C34", "Results are the same in every process, and its settings stay as they were",
     "The same calls with the same data - and, for a schedule, the same seed of Python's random "
     "module - give bitwise the same results in every process: whatever its hash seed, time zone, "
     "wall clock, locale, working directory, file mode mask, optimisation level, decimal "
     "precision, garbage collection, numpy error handling and print options, thread, and the "
     "order in which celest's modules were imported and its operations called. No operation "
     "changes such a setting, writes anywhere but to the file named, or draws random numbers, "
     "save the schedule search, which draws from the random module only.",
     ["inputs", "histories"], "every single and every pair of the listed surroundings of a process "
     "that runs the whole catalogue of operations",
     "tests run in one process on one machine, in one order, at one time of day",
     [T, A_, SA, WG, WH, FS, UN, Q, SC, TI], [("pure functions of their arguments", T),
                                              ("draws from random", "celest/schedule/alns.py")],
     ["results of every public operation", "settings of the process"],
     "Exhaustive over surroundings up to two (thorough: three) unusual ones at a time; a fixed "
     "catalogue of operations.",
     "explicit-state exploration of the surroundings of a process, differential against the plain one")


def main():
    sys.path.insert(0, HERE)
    with open(os.path.join(HERE, "properties.jsonl"), "w") as file:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            anchors = {"files": p["files"],
                       "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                       "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w}
                                    for n, m, w in p["state"]]
            file.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    checks = []
    for p in P:
        source = open(os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")).read()
        level = "model_checking" if 'LEVEL = "model_checking"' in source else "exploration"
        checks.append({"property": p["id"], "quick_cmd": "./run %s quick" % p["id"],
                       "thorough_cmd": "./run %s thorough" % p["id"],
                       "technique": p["technique"], "level": level, "level_note": p["note"]})
    manifest = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
                "notes": "Explorers import celest from /repo's working tree; no hooks in /repo, "
                         "random draws and the absent ephemeris are replaced from outside."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as file:
        json.dump(manifest, file, indent=1)
        file.write("\n")


if __name__ == "__main__":
    main()
