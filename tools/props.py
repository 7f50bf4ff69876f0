"""The properties, their anchors, and what each check assumes."""
NA = {}
BASE = ("Decided for every value within the bounds of the evidence file, in exact real arithmetic "
        "(float rounding is outside the claim); trusts the encoder in /verif/symcel and z3; "
        "the encoding is compared with the real code on concrete inputs in every run. ")


def P(id, title, statement, q, why, files, mech, note="", over=("inputs",)):
    return dict(id=id, title=title, statement=statement, q=q, why=why, files=files,
                mech=mech, note=BASE + note, over=list(over))


U = "celest/units/"
C = "celest/coordinates/"
F = C + "frames/"
S = "celest/schedule/"
E = "celest/encounter/"

PROPS = [
    P("C01", "Unit conversion is exact, invertible, pure and dimension-safe",
      "Converting a quantity between two units of one dimension multiplies its data by the ratio of the "
      "units' SI definitions, element by element for arrays and also for integer data, so that converting back "
      "returns the original value. The source quantity and its data are never modified. Conversion to a unit of another "
      "dimension raises an error, whatever the data. Defining a unit, also under a name already taken, changes no other.",
      "every pair of registered units, every user-defined scale, every numeric value, scalar or array",
      "tests convert one or two values between a few units", [U + "quantity.py", U + "core.py", U + "unit_initialization.py"],
      [("Quantity.to / convert_to", U + "quantity.py"), ("Unit scale", U + "core.py"), ("registry", U + "unit_initialization.py")]),
    P("C02", "Products, quotients, powers and multiples of units convert consistently",
      "A unit built by multiplying, dividing, raising to an integer power or scaling other units, nested in any order, "
      "converts with exactly the corresponding product of powers of their scales. Its dimension is the same "
      "product of dimensions, with cancelled dimensions absent, independent of the order in which it was built. Its printed form "
      "names each remaining factor with its power, those with negative power after the slash. The unit equals its scale times the product of its bases raised to its powers.",
      "unit expressions of up to three factors, powers -3..3, every positive scale",
      "tests compare a few fixed expressions' base lists, never a conversion through them",
      [U + "core.py", U + "display.py", U + "quantity.py"],
      [("CompoundUnit expansion", U + "core.py"), ("dimension strings", U + "display.py"), ("scale of a compound", U + "quantity.py")]),
    P("C03", "Quantity arithmetic and comparison do not depend on the units used",
      "Adding, subtracting, multiplying, dividing, negating and comparing quantities gives the result of doing so on the "
      "physical values, whatever units the operands are expressed in, with the unit of the result matching its dimension. "
      "A plain number is taken in the quantity's own unit; arrays work element by element. Sums and comparisons across dimensions raise an error, and operands are left unchanged. The printed form of a quantity is its value and its unit.",
      "every pair of units of one dimension, every pair of values",
      "tests use one pair of values per operator", [U + "quantity.py"], [("operators", U + "quantity.py")]),

    P("C04", "Julian dates and calendar dates are inverse",
      "Converting a Julian date to a calendar date and back gives the same instant, for scalars and for arrays element by "
      "element, independent of the other elements. The calendar fields are within their ranges and follow the Julian calendar before and "
      "the Gregorian calendar from 15 October 1582. The ordering of instants is preserved.",
      "every Julian date in the years 1 to 9999 within the harness windows, fractional day included",
      "tests convert a handful of dates of the current era",
      ["celest/time.py"], [("Julian date to calendar", "celest/time.py"), ("datetime output", "celest/time.py")]),
    P("C05", "Day of year counts days within the calendar year",
      "The day of the year is 1 on 1 January, grows by one with every calendar day, and equals 365 or 366 on 31 December according to "
      "whether the calendar in force makes it a leap year. The leap rule is the Gregorian one, every element of an array computed independently.",
      "every date of the years 1600 to 2400", "tests use one date",
      ["celest/time.py"], [("day of year", "celest/time.py")]),
    P("C06", "Solar times, hour angle and UT1 obey their defining relations",
      "True solar time exceeds mean solar time by the equation of time and both lie in one day; an hour of either corresponds to fifteen "
      "degrees of longitude. The true hour angle is true solar time measured from noon, and the mean hour angle mean solar time measured from noon. "
      "UT1 and the day fraction depend on the instant only, element by element.",
      "every Julian date within 100 years of J2000, every longitude",
      "tests compare a few dates with tabulated values", ["celest/time.py"],
      [("true/mean solar time, hour angles, ut1", "celest/time.py")]),
    P("C07", "Sidereal times keep their range, longitude shift and rate",
      "Greenwich and local sidereal times lie in [0, 24) hours. Local mean or apparent sidereal time differs from that of another longitude by exactly "
      "the difference in longitude, modulo a day. Greenwich mean sidereal time follows the published polynomial and the apparent one differs from it by "
      "the equation of the equinoxes; local sidereal time is the mean hour angle of the Sun plus its right ascension.",
      "every Julian date within 100 years of J2000, every longitude in [-180, 180]",
      "tests compare a few dates with an almanac", ["celest/time.py", C + "astronomical_quantities.py"],
      [("gmst/gast/lmst/last", "celest/time.py"), ("equation of equinoxes", C + "astronomical_quantities.py")]),
    P("C08", "Earth orientation quantities follow the published series",
      "The Earth rotation angle, mean and apparent obliquity, nutation arguments and components, precession angles and the low-precision solar "
      "quantities equal the polynomials and trigonometric series they document, for every date and element by element. "
      "Angles documented as reduced lie in their range.",
      "every Julian date within 100 years of J2000", "tests sample a few dates with loose tolerances",
      [C + "astronomical_quantities.py"], [("series", C + "astronomical_quantities.py")]),
    P("C09", "Inertial and Earth-fixed positions are related by a rotation that inverts",
      "Transforming positions from the inertial to the Earth-fixed frame and back returns the original vectors. The transformation preserves "
      "lengths and angles between vectors of one instant, and each row depends only on its own time and vector; times and vectors are not modified. It applies frame bias, precession, nutation and Earth rotation, in that order.",
      "every position vector, every date within 100 years of J2000",
      "tests round-trip one recorded data file, absent here", [C + "transforms.py", C + "nutation_precession_matrices.py"],
      [("GCRS/ITRS", C + "transforms.py"), ("matrices", C + "nutation_precession_matrices.py")]),
    P("C10", "Frame bias, precession and nutation are proper rotations",
      "The bias, precession and nutation matrices are orthonormal with determinant one at every date. Each equals the product of elementary "
      "rotations by its angles, in the documented order and sense.",
      "every date within 100 years of J2000", "tests compare single dates",
      [C + "nutation_precession_matrices.py"], [("matrices", C + "nutation_precession_matrices.py")]),
    P("C11", "Geodetic to Earth-fixed conversion is the WGS84 ellipsoid",
      "A geodetic latitude, longitude and height map to the Earth-fixed point at that height along the outward ellipsoid normal. "
      "A ground location built from the same coordinates has the same Earth-fixed position, refuses latitudes beyond 90 degrees and "
      "longitudes beyond 180 degrees whatever the unit, and its radius is that of the ellipsoid at its latitude.",
      "every latitude, longitude and height", "tests compare a few sites",
      [C + "transforms.py", C + "ground_location.py"], [("WGS84 to ITRS", C + "transforms.py"), ("GroundLocation", C + "ground_location.py")]),
    P("C12", "Earth-fixed to geodetic conversion inverts the ellipsoid",
      "Converting an Earth-fixed position outside the Earth's core to geodetic coordinates gives the latitude, longitude and height that map back to it. "
      "Latitude lies in [-90, 90] and longitude in [-180, 180] degrees, for either hemisphere, any order of rows, and near the poles.",
      "every point of the validity shell within the stated bounds", "tests cover no such data here",
      [C + "transforms.py"], [("ITRS to WGS84", C + "transforms.py")]),
    P("C13", "Azimuth and elevation are the true topocentric direction",
      "Elevation is the angle of the target above the plane normal to the station's geocentric vertical, in [-90, 90] degrees. Azimuth is "
      "the clockwise angle from north of the target's horizontal direction, in [0, 360), in either hemisphere. "
      "Both depend only on the direction from station to target.",
      "every station and target position", "tests cover no such data here",
      [C + "transforms.py"], [("azimuth, elevation", C + "transforms.py")]),
    P("C14", "The local-vertical local-horizontal frame is its definition",
      "The local frame has its z axis to the Earth's centre, its y axis against the orbit normal and its x axis completing the right-handed "
      "triad. The transformation into it is a rotation of each inertial vector, row by row.",
      "every position and velocity with non-zero angular momentum", "tests cover no such data here",
      [C + "transforms.py"], [("GCRS to LVLH", C + "transforms.py")]),
    P("C15", "Attitude angles point the boresight at the target",
      "Roll, pitch and yaw are the 2-1-3 Euler angles of the shortest rotation that turns the nadir axis onto the direction from the satellite to "
      "the ground location, so the rotated boresight points at it. The angles lie in their ranges, and the result depends only on each row's own time, position and velocity.",
      "every satellite position, velocity and ground location in view", "tests cover no such data here",
      [C + "transforms.py", "celest/satellite.py"], [("attitude", C + "transforms.py")]),
    P("C16", "Satellite distance, altitude and look angle are geometric",
      "The distance to a ground location is the length of the vector between satellite and location, the altitude is the height above the ellipsoid, and the look angle is the angle between "
      "the geocentric position of the satellite and the vector from location to satellite, in [0, 180] degrees. All are given for every time of the satellite and are unit-independent.",
      "every satellite and ground position", "tests cover no such data here",
      ["celest/satellite.py"], [("distance, look angle", "celest/satellite.py")]),
    P("C17", "Coordinate conversions are pure, consistent and unit-independent",
      "Converting a coordinate between frames by any documented route gives the position the direct transformation gives, in the requested frame with the same times. "
      "The result does not depend on the unit the input was given in, and the input object is unchanged. "
      "Each row is converted independently of the others.",
      "every route through the conversion interface, positions and units", "tests cover no such data here",
      [C + "coordinate.py", F], [("Coordinate.convert_to", C + "coordinate.py")]),
    P("C18", "Visible windows are exactly the maximal visible intervals",
      "The windows generated for a satellite and location are disjoint, in order, and bound exactly the maximal runs of samples whose elevation "
      "exceeds the threshold (and pass the lighting condition), including runs at the beginning or the end of the data and no run at all. "
      "A window is bounded by the first and last sample of its run, rises no later than it sets, and carries the satellite's attitude towards the location.",
      "every pattern of elevations over up to 7 samples", "tests cover no such data here",
      [E + "window_generator.py"], [("window generation", E + "window_generator.py")], over=("inputs", "histories")),
    P("C19", "A window collection iterates, indexes and counts its windows faithfully",
      "A window collection holds the windows added, in the order added, and refuses windows of another type than its first. "
      "Iterating it, any number of times, nested or after an abandoned iteration, yields every window exactly once; its length, indices and slices agree, and its printed forms list the windows with their own times in order.",
      "every add/iterate history of up to 4 windows", "tests iterate once",
      [E + "window_handling.py"], [("WindowCollection", E + "window_handling.py")], over=("histories", "inputs")),
    P("C20", "Inserting a request keeps the schedule feasible",
      "When an insertion schedules a request its imaging interval lies within one of the request's windows, ends by the deadline, has the requested duration, satisfies the "
      "quality and look angle constraints (a requested look angle being the pitch of the window's attitude), and does not overlap any request already scheduled. An "
      "insertion never changes a request already scheduled, so a feasible schedule stays feasible.",
      "every consistent set of up to 3 requests with up to 2 windows each", "tests use one recorded data set, absent here",
      [S + "insertion_operators.py", S + "scheduling_utils.py"], [("insertion", S + "insertion_operators.py")], over=("inputs", "histories")),
    P("C21", "Schedule bookkeeping is conserved by every operation",
      "After any sequence of adding, sorting, scheduling, rescheduling and unscheduling requests, the number of scheduled requests equals the number marked scheduled, no request is lost, "
      "duplicated or altered, and a scheduled request still refers to the window it was scheduled in. Unscheduling what is not scheduled changes nothing; sorting orders by its criterion; the cost is minus the sum of the priorities scheduled and a schedule is complete when all requests are.",
      "every operation history of length up to 4 on up to 3 requests", "tests apply one operation at a time",
      [S + "request_handler.py"], [("RequestHandler", S + "request_handler.py")], over=("histories", "inputs")),
    P("C22", "Removal operators remove exactly what they are asked to",
      "Every removal operator unschedules exactly the requested number of scheduled requests, or all of them when fewer are scheduled, and touches "
      "nothing else. The random one can choose any scheduled request, the others take scheduled requests in order of decreasing priority, number of opportunities or conflict degree.",
      "every schedule of up to 4 requests, every random choice", "tests use fixed schedules",
      [S + "removal_operators.py"], [("removal", S + "removal_operators.py")], over=("inputs", "schedules")),
    P("C23", "Insertion operators are exhaustive in their documented order",
      "An insertion operator tries requests in its documented order (by priority, by number of opportunities; the windows of each by conflict degree, or by rise in the initial solution), inserts at most the number asked for, and passes over a window only if "
      "it is infeasible for the request or in conflict with one scheduled earlier. A request alone that comfortably fits a window is scheduled.",
      "every schedule of up to 3 requests", "tests use one recorded data set, absent here",
      [S + "insertion_operators.py"], [("insertion order", S + "insertion_operators.py")], over=("inputs", "schedules")),
    P("C24", "The adaptive search never loses its best solution",
      "For nonpositive costs the adaptive search returns the best repaired solution it evaluated, never one worse than the initial solution. It accepts every improvement, and worse solutions no more often the worse or the colder. Its operator weights "
      "follow their scores and give valid probabilities; it runs the iterations asked for, fewer only once complete, and does not modify the problem handed to it.",
      "every sequence of random draws, costs and operator outcomes over a few iterations",
      "tests run one seedless solve", [S + "alns.py"], [("ALNS", S + "alns.py")], over=("schedules", "histories")),
    P("C25", "Conflict degrees measure overlap symmetrically",
      "The overlap of two windows is the length of the intersection of their intervals, symmetric and zero when disjoint. "
      "A window's conflict degree is its mean overlap with the windows of the handler that meet it, itself included; sorting by it orders accordingly.",
      "every pair of intervals, every set of up to 3 requests", "tests try four of the interval configurations",
      [S + "request_handler.py", S + "scheduling_utils.py"], [("conflict degree", S + "request_handler.py")]),
    P("C26", "Image quality and look-angle times are consistent",
      "The image quality at a time in a window is an integer between 1 and 10, 10 at the middle and falling linearly to 1 at the ends. "
      "The time found for a requested look angle is a sample inside the window with the angle reached before the next one; none is reported exactly when both ends of the window lie on one side of it.",
      "every window and time; every monotone look angle profile", "tests try the middle and the ends",
      [S + "scheduling_utils.py"], [("image quality, look angle time", S + "scheduling_utils.py")]),
    P("C27", "The scheduler's output is exactly the scheduled requests",
      "The schedule contains one observation window per scheduled request, with its location, start and duration and the satellite attitude at its start interpolated from that of its window, and none else. Requests are recorded as they are made, and the schedule found is feasible and no worse than the initial one.",
      "every scheduled/unscheduled pattern of up to 4 requests", "tests cover no such data here",
      [S + "scheduler.py", E + "window_handling.py"], [("Scheduler output", S + "scheduler.py")], over=("inputs", "histories")),
    P("C28", "Text output is aligned and complete",
      "A table written to a text file has one line per row in order, with every value printed to the stated precision under its heading, and all lines of a table equally wide for "
      "any mix of signs and magnitudes. Header, subheadings and parameters appear as documented, and the coordinate, satellite and window containers write every component.",
      "every table of up to 3 rows and 3 columns", "tests compare fixed files",
      ["celest/file_save.py"], [("TextFileWriter", "celest/file_save.py")]),
    P("C29", "Angle strings denote the angle they were given",
      "The formatted location string has minutes and seconds below 60, the right hemisphere letter, and denotes the given latitude and longitude to within its last printed digit.",
      "every latitude, longitude and height", "tests try four angles",
      ["celest/angle_strings.py"], [("angle strings", "celest/angle_strings.py")]),
    P("C30", "Position containers keep consistent data",
      "Every position container refuses component arrays of different lengths or shapes, returns the data given in each documented attribute and unit, and its array form "
      "has one row per time with the columns in documented order. A satellite holds Earth-fixed position and velocity whichever frame it is given, and refuses others.",
      "every combination of lengths up to 3 and every value", "tests try one mismatch", [F],
      [("base positions", F + "base_positions.py")]),
    P("C31", "Results depend only on the values of the arguments",
      "Every conversion, time scale, look angle, attitude, location and schedule is the same whether it is computed first or after others, with other objects, "
      "locations, satellites or units used in between. Integers, and where arrays are accepted also lists and single numbers, give the result of the equal floating point arrays. "
      "Objects of one class share no state: collections, handlers, searches, schedulers and file writers keep what they were given, and writing a file again leaves what writing it once does.",
      "every value; every pair of objects, locations and methods within the harness bounds",
      "tests make one object, use it once and compare it with one recorded number",
      ["celest/time.py", "celest/satellite.py", C, S, E, U, "celest/file_save.py"],
      [("Time", "celest/time.py"), ("Satellite", "celest/satellite.py"), ("Coordinate.convert_to", C + "coordinate.py"),
       ("GroundLocation", C + "ground_location.py"), ("WindowCollection", E + "window_handling.py"),
       ("RequestHandler, ALNS, Scheduler", S + "request_handler.py"), ("TextFileWriter", "celest/file_save.py")],
      over=("inputs", "histories")),
]
