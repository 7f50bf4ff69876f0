"""SI definitions of the registered units (the oracle for C01-C03)."""
import math

SI = dict(m=1.0, mm=1e-3, cm=1e-2, km=1e3, inch=0.0254, ft=0.3048, yd=0.9144, mi=1609.344,
          s=1.0, min=60.0, hr=3600.0, dy=86400.0, jd2000=1.0,
          deg=1.0, rad=180 / math.pi, arcsec=1 / 3600, arcmin=1 / 60, hourangle=15.0)
GROUPS = [["m", "mm", "cm", "km", "inch", "ft", "yd", "mi"],
          ["s", "min", "hr", "dy"],
          ["deg", "rad", "arcsec", "arcmin", "hourangle"],
          ["jd2000"]]
DIM = {n: d for g, d in zip(GROUPS, "LTAD") for n in g}
ALL = [n for g in GROUPS for n in g]


def u_of(c):
    return c.mod("celest.units"), c.mod("celest.units.quantity").Quantity
