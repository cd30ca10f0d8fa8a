"""Settings a user of the library may have made before calling it (they are theirs: calls neither undo nor depend on them)."""
import os


def choose(r, strict=True, plots=True, err=False):
    """Seeded settings.  strict: numerical warnings may be turned into errors; plots: plotting defaults may be changed."""
    u = {}

    def some(p, k, f):
        if r.random() < p:
            u[k] = f()
    lv = ("ignore", "warn", "log", "call") + (("raise",) * 8 if strict and r.random() < (.5 if err else .3) else ())
    some(.8 if err else .6, "npe", lambda: {k: r.choice(lv) for k in ("divide", "over", "under", "invalid")
                                            if r.random() < .8})
    some(.5, "npp", lambda: r.choice(({"precision": 2, "suppress": True}, {"precision": 0}, {"precision": 1, "suppress": True},
                                      {"precision": 14, "threshold": 7}, {"linewidth": 33},
                                      {"floatmode": "fixed", "sign": "+"}, {"nanstr": "-999", "infstr": "9e9"}, {"legacy": "1.13"})))
    some(.2, "npb", lambda: r.choice((4096, 16384, 80)))
    some(.4, "dec", lambda: [r.choice((3, 9, 60)), r.choice(("ROUND_UP", "ROUND_DOWN"))])
    some(.5, "warn", lambda: [r.choice((["ignore", "RuntimeWarning"], ["always", "Warning"], ["once", "UserWarning"],
                                        ["ignore", "DeprecationWarning"], ["default", "FutureWarning"], ["ignore", "UserWarning"],
                                        ["error", "DeprecationWarning"] if strict else ["module", "Warning"]))
                              for _ in range(r.choice((1, 2)))] + ([["error", "RuntimeWarning"]] if strict and r.random() < .15 else []))
    if plots:
        some(.5, "rc", lambda: r.choice(({"font.size": 7.5}, {"lines.linewidth": 3.3, "axes.grid": True}, {"figure.figsize": [3.0, 2.0]},
                                         {"image.cmap": "plasma"}, {"savefig.dpi": 77.0, "figure.dpi": 61.0}, {"axes.labelsize": 5.0},
                                         {"figure.max_open_warning": 3}, {"axes.facecolor": "#eeeeee"}, {"xtick.direction": "in"})))
        some(.2, "ion", lambda: True)
    some(.5, "pd", lambda: r.choice((["display.precision", 2], ["display.max_rows", 7], ["display.width", 33], ["display.max_columns", 3],
                                     ["mode.sim_interactive", True], ["display.float_format", "{:.1f}"])))
    some(.4, "nprand", lambda: r.randrange(1 << 31))
    some(.4, "umask", lambda: r.choice((0o077, 0o007, 0)))
    some(.3, "rec", lambda: r.choice((1777, 5000)))
    some(.3, "swi", lambda: r.choice((.001, .05)))
    some(.3, "gct", lambda: r.choice(([500, 5, 5], [100000, 50, 50])))
    some(.4, "log", lambda: [r.choice((10, 40)), r.choice((0, 20))])
    some(.3, "sig", lambda: True)
    some(.2, "dig", lambda: 9999)
    some(.2, "sock", lambda: 3.5)
    some(.2, "csv", lambda: 1 << 19)
    some(.3, "spe", lambda: r.choice(("warn", "ignore")))
    some(.2, "tmp", lambda: True)
    some(.2, "std", lambda: True)
    some(.2, "hooks", lambda: True)
    some(.2, "path", lambda: True)
    some(.3, "tz", lambda: r.choice(("Asia/Tokyo", "America/Lima")))
    some(.3, "env", lambda: {"OMP_NUM_THREADS": "3", "MPLBACKEND": "Agg", "MYSETTING": "1"})
    return u


def strict(u):
    """Numerical warnings may be errors under these settings."""
    return "raise" in (u.get("npe") or {}).values() or any(a == "error" for a, c in u.get("warn") or ())


def quiet(*a, **k):
    pass


class Log:
    def write(self, s):
        pass


_LOG = Log()


def apply_process(u, scratch):
    """In the main thread, before anything else of the phase."""
    import builtins
    import csv
    import gc
    import io
    import logging
    import random
    import signal
    import socket
    import sys
    import tempfile
    import threading
    import time
    import warnings
    import numpy as np
    for a, c in u.get("warn") or ():
        warnings.filterwarnings(a, category=getattr(builtins, c))
    if u.get("rc"):
        import matplotlib
        matplotlib.rcParams.update(u["rc"])
    if u.get("ion"):
        import matplotlib
        matplotlib.interactive(True)
    if u.get("pd"):
        import pandas as pd
        k, v = u["pd"]
        pd.set_option(k, v.format if isinstance(v, str) else v)
    if "nprand" in u:
        np.random.seed(u["nprand"])
        np.random.normal(size=3)
        random.seed(u["nprand"] + 7)
    if "umask" in u:
        os.umask(u["umask"])
    if "rec" in u:
        sys.setrecursionlimit(u["rec"])
    if "swi" in u:
        sys.setswitchinterval(u["swi"])
    if "gct" in u:
        gc.set_threshold(*u["gct"])
    if "log" in u:
        logging.getLogger().setLevel(u["log"][0])
        logging.getLogger().addHandler(logging.NullHandler())
        logging.getLogger("matplotlib").setLevel(u["log"][0])
        logging.disable(u["log"][1])
    if u.get("sig"):
        signal.signal(signal.SIGINT, quiet)
        signal.signal(signal.SIGTERM, quiet)
    if "dig" in u:
        sys.set_int_max_str_digits(u["dig"])
    if "sock" in u:
        socket.setdefaulttimeout(u["sock"])
    if "csv" in u:
        csv.field_size_limit(u["csv"])
    if u.get("tmp"):
        tempfile.tempdir = scratch + "/tmpd"
    if u.get("std"):
        sys.stdout = io.StringIO()
    if u.get("hooks"):
        sys.excepthook = threading.excepthook = quiet
    if u.get("path"):
        sys.path.append(scratch + "/libs")
    for k, v in (u.get("env") or {}).items():
        os.environ[k] = v
    if "tz" in u:
        os.environ["TZ"] = u["tz"]
        time.tzset()


def apply_thread(u):
    """At the start of each of the user's threads."""
    import decimal
    import numpy as np
    if u.get("npe"):
        np.seterrcall(_LOG)
        np.seterr(**{k: (v if v != "call" else "log") for k, v in u["npe"].items()})
    if u.get("npp"):
        np.set_printoptions(**u["npp"])
    if u.get("npb"):
        np.setbufsize(u["npb"])
    if u.get("dec"):
        decimal.getcontext().prec = u["dec"][0]
        decimal.getcontext().rounding = u["dec"][1]
    if "spe" in u:
        import scipy.special
        scipy.special.seterr(all=u["spe"])


# ------------------------------------------------------------------ what memory the library is given happens to hold
HEAP = ("nan", "huge", "ones", "old")
_BYTE = {"nan": 0x01, "huge": 0x80, "ones": 0xc0, "old": 0x55}       # the allocator fills with the complement
_VAL = {"nan": float("nan"), "huge": 1.3e300, "ones": 2.0, "old": 11.25}


def heap_process(how):
    """Fresh memory holds a byte pattern from now on."""
    import ctypes
    try:
        ctypes.CDLL(None).mallopt(-6, _BYTE[how])
    except (OSError, AttributeError):
        pass


def heap_call(how):
    """Recently freed small arrays held these values (numpy hands their memory out again)."""
    import numpy as np
    v = _VAL[how]
    keep = [np.full(n, v) for n in _SIZES for _ in range(4)]
    keep += [np.full(n, -v) for n in _SIZES for _ in range(3)]
    del keep


_SIZES = tuple(range(1, 41)) + (48, 50, 60, 64, 72, 80, 96, 100, 108, 120, 127)
