"""Recorded, unrepaired findings: the exact run that shows each, made on every check of its property."""
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEM = {"f": "EM.Berryman_DEM", "a": [37.0, 44.0, 1.0, 0.0, 0.1, 0.3]}


def dem_in_dem(x):
    """The second half of a solve is made while another solve of the same thread waits between two evaluations."""
    ref = x.ref(DEM)
    at = ref["evb"][len(ref["evb"]) // 2] + 3
    return {"id": ["known", 0], "prop": "C14", "watch": ["result"], "slots": [], "style": "known", "phases": [{"threads": [[
        {"id": "o1", "op": "call", "c": DEM, "ev": [[at, ["act", ["nest", {"id": "o2", "op": "call", "c": DEM}]]]]}]]}]}


DEMOS = {"C14-DEM": dem_in_dem}


def listed(prop):
    """[(tag, line)] of the findings recorded for this property."""
    out = []
    with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as fh:
        for line in fh:
            m = re.match(r"KNOWN-FINDING: property=(\w+) \[([\w-]+)\]", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), line.strip()))
    return out


def show(prop):
    """Print the line of every listed finding that still shows."""
    from . import driver as D
    for tag, line in listed(prop):
        x = D.Exec()
        seen = False
        try:
            rep = x.run(DEMOS[tag](x), 60.0)
            seen = rep is None or bool(D.violations(rep))
        except Exception as e:           # a crash of the process image shows it too
            seen = "signal" in str(e)
        if seen:
            print(line, flush=True)
        else:
            print("note: the recorded finding %s did not show" % tag, flush=True)
