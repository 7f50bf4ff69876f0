"""C29: location strings denote the location they were given."""
from symcel.harness import Harness

ASSUMPTIONS = ["latitudes and longitudes in degrees, minutes or seconds of arc or radians; heights within 100000 of their unit"]
DEG, MIN, SEC = "\u00B0", "\u2032", "\u2033"


def denoted(c, text, hemispheres, label):
    """Degrees denoted by dd\u00b0mm\u2032ss.ss\u2033H, and H."""
    d, rest = text.split(DEG)
    m, rest = rest.split(MIN)
    s, h = rest.split(SEC)
    c.check(len(d) in (2, 3) and len(m) == 2 and len(s) == 5, label + ": two digits each, two decimals")
    c.check(h in hemispheres, label + ": hemisphere")
    dv, mv, sv = c.number(d), c.number(m), c.number(s)
    c.check((mv >= 0) & (mv < 60), label + ": minutes below 60")
    c.check((sv >= 0) & (sv < 60), label + ": seconds below 60")
    return dv + mv / 60 + sv / 3600, h


def angle(c, text, value, hemispheres, label):
    got, h = denoted(c, text, hemispheres, label)
    c.approx(got, value if value >= 0 else -value, (0.005 + 1e-5) / 3600 / 0.6, label + ": denotes the angle")
    if (value > 1e-5) | (value < -1e-5):
        c.check(h == (hemispheres[0] if value > 0 else hemispheres[1]), label + ": hemisphere of the angle")


def strings(c, lat, lon, hgt, q, unit, factor, hunit, hname, whole):
    if whole:
        m = c.mod("celest.angle_strings")
        text = c.symstr(lambda: m._ISO6709_representation(q(lat / factor, unit), q(lon / factor, unit), q(hgt, hunit)))
    else:
        g = c.mod("celest.coordinates.ground_location").GroundLocation(lat / factor, lon / factor, hgt, unit, hunit)
        text = c.symstr(g.__str__)
    a, b, h = text.split(" ")
    angle(c, a, lat, "NS", "latitude")
    angle(c, b, lon, "EW", "longitude")
    c.check(h.endswith(hname), "unit of the height")
    body = h[:len(h) - len(hname)]
    c.approx(c.number(body), hgt, (0.005 + 1e-7) / 0.6, "height to two decimals")


def units(c):
    u = c.mod("celest.units")
    return u, c.mod("celest.units.quantity").Quantity


def latitude(c):
    u, q = units(c)
    strings(c, 90 * c.real("latitude", -1, 1), 12.5, 1.25, q, u.deg, 1, u.km, "km", True)


def longitude(c):
    u, q = units(c)
    strings(c, -45.125, 180 * c.real("longitude", -1, 1), 1.25, q, u.deg, 1, u.km, "km", True)


def height(c):
    u, q = units(c)
    unit, name = c.pick("unit", [(u.km, "km"), (u.m, "m")])
    strings(c, 10, 20, 1000 * c.real("height", -1, 1), q, u.deg, 1, unit, name, True)


def other_units(c):
    u, q = units(c)
    unit, f = c.pick("unit", [(u.arcmin, 1 / 60), (u.arcsec, 1 / 3600)])
    strings(c, 90 * c.real("latitude", -1, 1), 12.5, 1.25, q, unit, f, u.m, "m", True)


def location(c):
    u, q = units(c)
    strings(c, 89 * c.real("latitude", -1, 1), 100.5, 2.5, q, u.deg, 1, u.km, "km", False)


def location_longitude(c):
    u, q = units(c)
    strings(c, 45.5, 179 * c.real("longitude", -1, 1), 2.5, q, u.deg, 1, u.m, "m", False)


def radians(c):
    """From radians the angle is that of the conversion to degrees."""
    u, q = units(c)
    x = q(c.real("latitude", -1.5, 1.5), u.rad)
    m = c.mod("celest.angle_strings")
    text = c.symstr(lambda: m._ISO6709_representation(x, q(1, u.deg), q(1, u.m)))
    angle(c, text.split(" ")[0], x.to(u.deg), "NS", "latitude")


HARNESSES = [
    Harness("latitude", latitude, "every latitude", opts=dict(feas_ms=200)),
    Harness("longitude", longitude, "every longitude", opts=dict(feas_ms=200)),
    Harness("height", height, "every height up to 1000 in km and m", opts=dict(feas_ms=200)),
    Harness("other_units", other_units, "every latitude in minutes and seconds of arc", opts=dict(feas_ms=200)),
    Harness("radians", radians, "latitudes up to 1.5 rad", opts=dict(feas_ms=200)),
    Harness("location", location, "ground locations of every latitude within 89 degrees", opts=dict(feas_ms=200)),
    Harness("location_longitude", location_longitude, "ground locations of every longitude within 179 degrees", opts=dict(feas_ms=200)),
]
