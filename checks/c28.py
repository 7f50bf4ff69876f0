"""C28: tables in text files are aligned and complete."""
import math
from symcel.harness import Harness

ASSUMPTIONS = [
    "up to two arbitrary values between -1000 and 100000 per table, others given; 0 to 3 decimals (15 for the coordinate containers)",
    "columns are separated by tabulators, cells padded with blanks, as in the code's constants"]
M = "celest.file_save"
OPTS = dict(feas_ms=200)


def lines(text):
    return text.split("\n")


def width_ok(c, cells, width, label):
    c.check(all(len(x) == width for x in cells), label)


def table(c, rows, columns, prec, label="table"):
    """`columns` holds heading and expected values; `rows` are the lines."""
    c.check(len(rows) == 2 + len(columns[0][1]), label + ": a heading, a rule and one line per row")
    cells = [r.split("\t") for r in rows]
    c.check(all(len(r) == len(columns) for r in cells), label + ": every column in every line")
    for j, (name, want) in enumerate(columns):
        head, rule = cells[0][j], cells[1][j]
        c.check(head.rstrip() == name, label + ": heading of a column")
        c.check(len(rule) >= len(name) and rule == "-" * len(rule), label + ": rule under the heading")
        width_ok(c, [r[j] for r in cells], len(rule), label + ": every line as wide as the heading")
        for r, w in zip(cells[2:], want):
            cell = r[j].rstrip()
            if isinstance(w, str):
                c.check(cell == w, label + ": text as given")
                continue
            parts = cell.split(".")
            c.check(len(parts) == (2 if prec else 1) and (not prec or len(parts[1]) == prec),
                    label + ": the stated number of decimals")
            c.approx(c.number(cell), w, (0.5 * 10 ** -prec + 1e-9) / 0.6, label + ": the value of its row")


def write(c, header, layers):
    def go(path):
        w = c.mod(M).TextFileWriter(path, header)
        for l in layers:
            w.add_layer(*l)
        w.save()
    return c.capture(go)


def units(c):
    return c.mod("celest.units"), c.mod("celest.units.quantity").Quantity


def one_column(c):
    """Two arbitrary values in one column."""
    u, q = units(c)
    v = c.reals("v", 2, -99, 999)
    prec = c.pick("decimals", [0, 3])
    text = write(c, None, [(None, None, [["Data", q(c.arr(v), u.m)]], "%." + str(prec) + "f")])
    table(c, lines(text), [("Data (m)", v)], prec)


def two_columns(c):
    """Columns keep to their own data; order of rows kept."""
    u, q = units(c)
    v, w = c.real("v", -99, 999), c.real("w", -99, 999)
    x, y = [v, 7.25, -2000000.0], [1.0, w, 22.5]
    text = write(c, None, [(None, None, [["A", q(c.arr(x), u.km)], ["Second label", q(c.arr(y), u.deg)]], "%.2f")])
    table(c, lines(text), [("A (km)", x), ("Second label (" + str(u.deg) + ")", y)], 2)


def bare_array(c):
    """Arrays without a unit, next to a quantity."""
    u, q = units(c)
    v, w = c.real("v", -99, 999), c.real("w", -99, 999)
    x, y = [0.5, v], [w, -1234567.0]
    text = write(c, None, [(None, None, [["A", c.arr(x)], ["B", q(c.arr(y), u.s)], ["C", c.arr([1, 2])]], "%.3f")])
    table(c, lines(text), [("A", x), ("B (s)", y), ("C", [1, 2])], 3)


def texts(c):
    """A column of text does not change the format of the others."""
    u, q = units(c)
    v = c.real("v", -1000, 100000)
    x = [v, -3.25]
    names = ["east", "a longer name"]
    text = write(c, None, [(None, None, [["Place", c.np.array(names)], ["X", q(c.arr(x), u.m)]], "%.2f")])
    table(c, lines(text), [("Place", names), ("X (m)", x)], 2)


def layers(c):
    """Header, subheadings and parameters in their places."""
    u, q = units(c)
    v = c.real("v", 0, 9)
    n = 1 + c.choice("layers", 2)
    header = c.pick("header", [None, "A title"])
    ls, want = [], []
    if header is not None:
        want += [header, "=" * len(header), ""]
    for k in range(n):
        sub = "Part %d" % k if c.bool("sub%d" % k) else None
        par = [["one", "1"], ["two", "b"]] if c.bool("parameters%d" % k) else None
        dat = [["X", q(c.arr([v, k]), u.m)]] if c.bool("data%d" % k) or (sub is None and par is None) else None
        ls.append((sub, par, dat, "%.1f"))
        if sub is not None:
            want += [sub, ""]
        if par is not None:
            want += ["one: 1", "two: b", ""]
        if dat is not None:
            want += [[("X (m)", [v, k])], ""]
    want.pop()
    got = lines(write(c, header, ls))
    i = 0
    for w in want:
        if isinstance(w, str):
            c.check(i < len(got) and got[i] == w, "headings, parameters and blank lines")
            i += 1
        else:
            table(c, got[i:i + 4], w, 1, "layer")
            i += 4
    c.check(i == len(got), "nothing else")


def names(c):
    """The file is named as asked, with its ending."""
    f = c.mod(M)._process_file_name
    c.check(f("a") == "a.txt" and f("a.txt") == "a.txt" and f("dir/b.c") == "dir/b.c.txt", "file name")


def container(c, make, header, columns, params=()):
    obj = make()
    text = c.capture(lambda p: obj.save_text_file(p))
    got = lines(text)
    c.check(got[0] == header and got[1] == "=" * len(header) and got[2] == "", "header")
    i = 3
    for p in params:
        c.check(got[i] == p, "parameters")
        i += 1
    if params:
        c.check(got[i] == "", "blank line")
        i += 1
    table(c, got[i:], columns, 15, "container")


def two(c, name, fixed):
    return [c.real(name, -900, 900), fixed]


def frames(c):
    """Positions in each frame."""
    u, q = units(c)
    k = c.pick("frame", ["gcrs", "itrs", "lvlh", "wgs84"])
    t, x, y, z = [2.5, 3.5], two(c, "x", -7123.5), [10.25, -0.5], [1.0, 2.0]
    j = c.arr(t)
    a = [c.arr(v) for v in (x, y, z)]
    F = "celest.coordinates.frames."
    if k == "wgs84":
        make = lambda: c.mod(F + "wgs84").WGS84(j, *a, u.deg, u.km)
        head, cols = "WGS84 Coordinate Data", ["Latitude (" + str(u.deg) + ")", "Longitude (" + str(u.deg) + ")", "Height (km)"]
    else:
        C = {"gcrs": "GCRS", "itrs": "ITRS", "lvlh": "LVLH"}[k]
        if k == "lvlh":
            make = lambda: c.mod(F + k).LVLH(j, *a, u.km)
            head = "Satellite LVLH Coordinate Data"
        else:
            make = lambda: getattr(c.mod(F + k), C)(j, *a, u.km)
            head = C + " Coordinate Data"
        cols = ["X (km)", "Y (km)", "Z (km)"]
    container(c, make, head, list(zip(["Time (" + str(u.jd2000) + ")"] + cols, [t, x, y, z])))


def pointing(c):
    u, q = units(c)
    F = "celest.coordinates.frames."
    G = c.mod("celest.coordinates.ground_location").GroundLocation
    site = G(10, 20, 0, u.deg, u.km)
    t, x, y, z = [2.5, 3.5], two(c, "x", -179.5), [10.25, -0.5], [1.0, 2.0]
    d = " (" + str(u.deg) + ")"
    if c.bool("azel"):
        make = lambda: c.mod(F + "azel").AzEl(c.arr(t), c.arr(x), c.arr(y), u.deg, site)
        container(c, make, "Azimuth-Elevation Coordinate Data",
                  [("Time (" + str(u.jd2000) + ")", t), ("Azimuth" + d, x), ("Elevation" + d, y)],
                  ["Location: " + str(site)])
    else:
        make = lambda: c.mod(F + "attitude").Attitude(c.arr(t), c.arr(x), c.arr(y), c.arr(z), u.deg, site)
        container(c, make, "Attitude Coordinate Data",
                  [("Time (" + str(u.jd2000) + ")", t), ("Roll" + d, x), ("Pitch" + d, y), ("Yaw" + d, z)],
                  ["Location: " + str(site)])


def satellite(c):
    """A satellite, in both frames, with or without its velocity."""
    u, q = units(c)
    I = c.mod("celest.coordinates.frames.itrs").ITRS
    G = c.mod("celest.coordinates.frames.gcrs").GCRS
    t = [2.5, 3.5]
    x = c.real("x", -900, 900)
    pos = I(c.arr(t), c.arr([x, 1.5]), c.arr([7000.0, -7000.0]), c.arr([0.5, 10.0]), u.km)
    vel = I(c.arr(t), c.arr([0.25, x]), c.arr([7.5, -7.5]), c.arr([2.0, 10.0]), u.m / u.s)

    def turned(p):
        unit = p.x.unit
        return G(p.time.to(u.jd2000), -1 * p.y.to(unit), p.x.to(unit), p.z.to(unit), unit)
    c.patch("celest.satellite", "_itrs_to_gcrs", turned)
    v = c.bool("velocity")
    sat = c.mod("celest.satellite").Satellite(pos, vel if v else None)
    P = lambda f: [("%s %s (km)" % (f, k)) for k in "XYZ"]
    V = lambda f: [("%s V%s (%s)" % (f, k, str(u.m / u.s))) for k in "XYZ"]
    cols = [("Time (" + str(u.jd2000) + ")", t)] + list(zip(P("Itrs"), [[x, 1.5], [7000.0, -7000.0], [0.5, 10.0]]))
    if v:
        cols += list(zip(V("Itrs"), [[0.25, x], [7.5, -7.5], [2.0, 10.0]]))
    cols += list(zip(P("Gcrs"), [[-7000.0, 7000.0], [x, 1.5], [0.5, 10.0]]))
    if v:
        cols += list(zip(V("Gcrs"), [[-7.5, 7.5], [0.25, x], [2.0, 10.0]]))
    container(c, lambda: sat, "Satellite Position and Velocity", cols)


def windows(c):
    """Windows of either kind, one line each."""
    u, q = units(c)
    wh = c.mod("celest.encounter.window_handling")
    ws = wh.WindowCollection()
    x = c.real("x", 1, 900)
    jd, d = " (" + str(u.jd2000) + ")", " (" + str(u.deg) + ")"
    if c.bool("visible"):
        for a, b in ((x, 1000.5), (5000.0, 5001.0)):
            ws.add_window(wh.VisibleTimeWindow(a, b, None))
        container(c, lambda: ws, "VisibleTimeWindow Data",
                  [("Rise Time" + jd, [x, 5000.0]), ("Set Time" + jd, [1000.5, 5001.0])])
    else:
        G = c.mod("celest.coordinates.ground_location").GroundLocation
        A = c.mod("celest.coordinates.frames.attitude").Attitude
        sites = [G(10, 20, 0, u.deg, u.km), G(-10.5, 120, 11.25, u.deg, u.km)]
        unit, k = c.pick("unit", [(u.s, 1), (u.min, 60)])
        turn, f = c.pick("angles", [(u.deg, 1), (u.rad, math.pi / 180)])
        for i in range(2):
            ws.add_window(wh.ObservationWindow(q(i + 2.5, u.jd2000), q([x, 60.0][i] / k, unit), sites[i],
                                               A(c.arr([i + 2.5]), c.arr([-1.5 * f]), c.arr([i * f]), c.arr([0.25 * f]), turn, sites[i])))
        container(c, lambda: ws, "ObservationWindow Data",
                  [("Start Time" + jd, [2.5, 3.5]), ("Duration (s)", [x, 60.0]), ("Location", [str(s) for s in sites]),
                   ("Roll" + d, [-1.5, -1.5]), ("Pitch" + d, [0, 1]), ("Yaw" + d, [0.25, 0.25])])


HARNESSES = [
    Harness("one_column", one_column, "2 values, 0 and 3 decimals", opts=OPTS),
    Harness("two_columns", two_columns, "2 columns of 3 rows, 2 arbitrary values", opts=OPTS),
    Harness("bare_array", bare_array, "3 columns, with and without unit, 2 arbitrary values", opts=OPTS),
    Harness("texts", texts, "a column of text and one of numbers", opts=OPTS),
    Harness("layers", layers, "up to 2 layers, with and without header, subheading, parameters, data", opts=OPTS),
    Harness("names", names, "file names", opts=OPTS),
    Harness("frames", frames, "positions in the 4 frames, 2 rows", opts=OPTS),
    Harness("pointing", pointing, "horizontal coordinates and attitudes, 2 rows", opts=OPTS),
    Harness("satellite", satellite, "a satellite with and without velocity, the frame rotation replaced", opts=OPTS),
    Harness("windows", windows, "collections of either kind of window", opts=OPTS),
]
