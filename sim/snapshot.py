"""Process-wide settings a user of the library can observe."""
import builtins
import csv
import decimal
import faulthandler
import gc
import locale
import logging
import math
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import warnings

_affinity = os.sched_getaffinity


def _mods():
    import copy
    import matplotlib.cm
    import matplotlib.colors
    import numpy as np
    import scipy.integrate
    import scipy.interpolate
    import scipy.linalg
    import scipy.optimize
    import scipy.special
    import pandas
    import matplotlib.pyplot
    import kde_diffusion
    return {"numpy": np, "numpy.linalg": np.linalg, "numpy.random": np.random, "scipy.optimize": scipy.optimize,
            "scipy.integrate": scipy.integrate, "scipy.special": scipy.special, "scipy.interpolate": scipy.interpolate,
            "scipy.linalg": scipy.linalg, "pandas": pandas, "matplotlib.pyplot": matplotlib.pyplot, "math": math,
            "builtins": builtins, "kde_diffusion": kde_diffusion, "warnings": warnings, "random": random, "copy": copy,
            "matplotlib.colors": matplotlib.colors, "os": os, "threading": threading,
            "numpy.ndarray": np.ndarray, "pandas.DataFrame": pandas.DataFrame, "pandas.Series": pandas.Series}


_SKIP = {("warnings", "_filters_mutated"), ("warnings", "filters"), ("builtins", "_"), ("warnings", "_onceregistry"),
         ("warnings", "showwarning"), ("warnings", "_showwarnmsg_impl"),
         ("warnings", "onceregistry"), ("threading", "_active"), ("threading", "_counter")}
_MUT = (int, float, str, bytes, bool, list, dict, set, tuple)


def thread_state():
    """Settings that belong to the calling thread."""
    import numpy as np
    import scipy.special as sp
    c = decimal.getcontext()
    return {"np.geterr": tuple(sorted(np.geterr().items())), "np.geterrcall": repr(np.geterrcall()),
            "np.printoptions": repr(sorted(np.get_printoptions().items(), key=str)),
            "decimal.context": (c.prec, c.rounding, tuple(sorted((str(k), v) for k, v in c.traps.items()))),
            "np.bufsize": np.getbufsize(), "scipy.special.geterr": tuple(sorted(sp.geterr().items())), "trace": repr(sys.gettrace())}


def process_state():
    s = {"warnings.filters": repr(warnings.filters), "warnings.showwarning": id(warnings.showwarning)}
    with warnings.catch_warnings():          # looking must not warn
        warnings.simplefilter("ignore")
        return _process_state(s)


def _process_state(s):
    import matplotlib
    import numpy as np
    import pandas as pd
    st = np.random.get_state()
    s["np.random"] = (st[0], st[1].tobytes(), st[2], st[3], st[4])
    s["random"] = random.getstate()
    s["rcParams"] = {k: repr(matplotlib.rcParams._get(k) if hasattr(matplotlib.rcParams, "_get") else
                             matplotlib.rcParams[k]) for k in matplotlib.rcParams if k != "backend"}
    s["backend"] = matplotlib.get_backend()
    s["interactive"] = matplotlib.is_interactive()
    s["cmaps"] = tuple(sorted(matplotlib.colormaps))
    s["units"] = len(matplotlib.units.registry) if hasattr(matplotlib, "units") else 0
    s["pandas"] = _pd_options(pd)
    s["environ"] = dict(os.environ)
    s["cwd"] = os.getcwd()
    um = os.umask(0o22)
    os.umask(um)
    s["umask"] = um
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["recursionlimit"] = sys.getrecursionlimit()
    s["switchinterval"] = sys.getswitchinterval()
    s["stdio"] = (id(sys.stdout), id(sys.stderr), id(sys.stdin))
    s["hooks"] = (id(sys.excepthook), id(sys.displayhook), id(threading.excepthook), repr(sys.getprofile()))
    s["sys.path"] = tuple(sys.path)
    s["sys.float_repr_style"] = sys.float_repr_style
    s["gc"] = (gc.isenabled(), gc.get_threshold())
    s["signals"] = tuple(repr(signal.getsignal(x)) for x in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE))
    root = logging.getLogger()
    s["logging"] = (root.level, len(root.handlers), logging.root.manager.disable)
    s["loggers"] = {n: (x.level, x.disabled, x.propagate, len(x.handlers)) for n, x in list(logging.root.manager.loggerDict.items())
                    if isinstance(x, logging.Logger)}
    s["misc"] = (socket.getdefaulttimeout(), tuple(time.tzname), faulthandler.is_enabled(), csv.field_size_limit(),
                 resource.getrlimit(resource.RLIMIT_NOFILE), signal.getitimer(signal.ITIMER_VIRTUAL),
                 sorted(_affinity(0)))
    s["intstr"] = sys.get_int_max_str_digits()
    s["decimal.default"] = (decimal.DefaultContext.prec, decimal.DefaultContext.rounding)
    s["tempdir"] = sys.modules["tempfile"].tempdir if "tempfile" in sys.modules else None
    s["threading"] = (repr(threading._trace_hook), threading.stack_size())
    s["string_function"] = (repr(getattr(np, "set_string_function", None)),)
    for name, m in _mods().items():
        for k, v in list(vars(m).items()):
            if (name, k) in _SKIP or k.startswith("__"):
                continue
            s["%s.%s" % (name, k)] = ("v", repr(v)) if isinstance(v, (int, float, str, bytes, bool)) else ("id", id(v))
    return s


def _pd_options(pd):
    try:
        from pandas._config import config as c
        return repr(sorted((k, repr(c.get_option(k))) for k in c._registered_options))
    except Exception:
        return repr([pd.get_option(k) for k in ("mode.chained_assignment", "display.precision", "display.max_rows",
                                                 "display.float_format")])


def diff(a, b):
    """Names of settings that changed or disappeared (additions to module name spaces are not settings)."""
    out = []
    for k, v in a.items():
        if k not in b:
            out.append(k + " removed")
        elif b[k] != v:
            if k == "loggers":
                d = [x for x in v if x in b[k] and v[x] != b[k][x]]
                if d:
                    out.append("loggers[%s]" % ",".join(d[:3]))
            elif k == "rcParams" or k == "environ":
                d = [x for x in set(v) | set(b[k]) if v.get(x) != b[k].get(x)]
                out.append("%s[%s]" % (k, ",".join(sorted(d)[:4])))
            else:
                out.append(k)
    return out


def files(root):
    out = {}
    for r, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            try:
                out[p[len(root):]] = os.path.getsize(p)
            except OSError:
                pass
    return out
