"""Harnesses that decide part of another property as well. Those of C31: what
holds for every input holds also after other calls, for integers and for
lists. Those of C20: a schedule made by insertions is feasible."""
import importlib

SHARED = {
    "C01": ["units"], "C04": ["dates"], "C06": ["times", "time_history"], "C07": ["times", "time_history"],
    "C09": ["integers_gcrs", "integers_itrs"], "C11": ["locations", "integers_wgs84"], "C12": ["integers_itrs"],
    "C13": ["sites"], "C15": ["satellite", "satellite_integers"], "C16": ["satellite", "satellite_integers", "altitude"],
    "C17": ["sites", "coordinate_gcrs", "coordinate_itrs", "coordinate_wgs84", "integers_gcrs", "integers_itrs", "integers_wgs84"],
    "C18": ["visibility"], "C19": ["collections"], "C21": ["handlers"], "C24": ["searches"], "C27": ["schedulers", "c20.one", "c20.look", "c20.beside", "c20.beside_two"], "C28": ["files"],
}


def load(prop):
    """The module of a property and all its harnesses."""
    mod = importlib.import_module("checks." + prop.lower())
    hs = list(mod.HARNESSES)
    if prop in SHARED:
        for name in SHARED[prop]:
            src, name = name.split(".") if "." in name else ("c31", name)
            if name not in {h.name for h in hs}:
                hs += [h for h in importlib.import_module("checks." + src).HARNESSES if h.name == name]
    return mod, hs
