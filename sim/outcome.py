"""Normal form, digest and comparison of call outcomes."""
import hashlib
import numpy as np

RTOL = 1e-10
# a Python number and the numpy scalar of the same precision are the same answer
KIND = {"float": "float64", "int": "int64", "complex": "complex128"}


class Fig:
    """Marker for a figure signature inside a normalised tree."""


def _arr(a):
    a = np.asarray(a)
    if a.dtype == object:
        return ("obj", [repr(x) for x in a.reshape(-1).tolist()], list(a.shape))
    return ("nd", str(a.dtype), tuple(a.shape), np.array(a, copy=True))


def _r(x):
    try:
        return [round(float(v), 9) for v in np.ravel(x)]
    except Exception:
        return repr(x)


def _ma(a):
    """array-ish -> plain float array with masked entries as nan"""
    if a is None:
        return None
    a = np.ma.asarray(a)
    try:
        a = a.astype(float).filled(np.nan)
    except Exception:
        return repr(a)
    return _arr(a)


def fig_sig(fig):
    """What a user sees on a figure; independent of numbering, identity and draw state."""
    out = ["fig", _r(fig.get_size_inches())]
    for ax in fig.axes:
        d = ["ax", ax.get_xlabel(), ax.get_ylabel(), ax.get_title(), _r(ax.get_xlim()), _r(ax.get_ylim()),
             bool(ax.xaxis.get_gridlines() and ax.xaxis.get_gridlines()[0].get_visible()),
             len(ax.texts), len(ax.images), [t.get_text() for t in ax.texts], len(ax.patches),
             ax.get_xscale(), ax.get_yscale(), bool(ax.axison), _legend(ax)]
        for ln in ax.lines:
            d.append(["line", _ma(ln.get_xdata(orig=False)), _ma(ln.get_ydata(orig=False)), str(ln.get_color()),
                      str(ln.get_linestyle()), float(ln.get_linewidth()), str(ln.get_marker()),
                      str(ln.get_markerfacecolor()), repr(ln.get_alpha())])
        for c in ax.collections:
            try:
                off = _ma(c.get_offsets())
            except Exception:
                off = None
            e = ["coll", type(c).__name__, off, _ma(c.get_array()),
                 getattr(c.get_cmap(), "name", None), _cmap_sig(c.get_cmap()), _r([x for x in c.get_clim() if x is not None]),
                 repr(c.get_alpha()), _r(c.get_linewidths()), _r(c.get_sizes()) if hasattr(c, "get_sizes") else None]
            if type(c).__name__ in ("QuadContourSet", "LineCollection", "PathCollection"):
                ps = c.get_paths()
                e.append(len(ps))
                e.append([_ma(p.vertices) for p in ps[:40]])
            d.append(e)
        out.append(d)
    out.append([t.get_text() for t in fig.texts])
    out.append(fig.get_suptitle())
    return out


def _legend(ax):
    lg = ax.get_legend()
    return None if lg is None else [t.get_text() for t in lg.get_texts()]


def _cmap_sig(cm):
    if cm is None:
        return None
    return [_r(cm(x)) for x in (0.0, .3, .7, 1.0)] + [_r(cm.get_bad()), _r(cm.get_under()), _r(cm.get_over())]


def norm(x, depth=0):
    """Normal form of a returned value."""
    if x is None or isinstance(x, (bool, str)):
        return ("c", type(x).__name__, x)
    if isinstance(x, (int, float, complex)) and not isinstance(x, np.generic):
        return ("s", KIND.get(type(x).__name__, type(x).__name__), x)
    if isinstance(x, np.generic):
        return ("s", KIND.get(str(x.dtype), str(x.dtype)), x.item())
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", _arr(x.data), _arr(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        return _arr(x)
    if isinstance(x, (tuple, list)):
        return ("t", type(x).__name__, [norm(v, depth + 1) for v in x])
    if isinstance(x, dict):
        return ("d", [(repr(k), norm(v, depth + 1)) for k, v in x.items()])
    tn = type(x).__name__
    if tn == "Series":
        return ("ser", _arr(x.index.values), _arr(x.values))
    if tn == "DataFrame":
        return ("df", [str(c) for c in x.columns], _arr(x.index.values), _arr(x.values))
    if tn == "Figure":
        return ("fig", _tree(fig_sig(x)))
    if hasattr(x, "get_xlabel"):
        return ("axes", x.get_xlabel(), x.get_ylabel())
    return ("o", tn)


def _tree(x):
    return x


def exc_name(e):
    return type(e).__name__


def same(a, b):
    """Are two normalised outcomes equal (floating point within RTOL, NaN equal)?"""
    if type(a) is not type(b):
        return isinstance(a, (int, float, complex)) and isinstance(b, (int, float, complex)) and _close(a, b)
    if isinstance(a, np.ndarray):
        return _aclose(a, b)
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex)):
        return _close(a, b)
    return a == b


def _close(a, b):
    if a == b:
        return True
    if a != a and b != b:
        return True
    try:
        return abs(a - b) <= RTOL * max(abs(a), abs(b))
    except OverflowError:
        return False


def _aclose(a, b):
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if a.dtype.kind not in "fc":
        return bool(np.array_equal(a, b))
    with np.errstate(all="ignore"):
        eq = (a == b) | (np.isnan(a) & np.isnan(b))
        if eq.all():
            return True
        m = np.nanmax(np.abs(a[np.isfinite(a)])) if np.isfinite(a).any() else 0.0
        d = np.abs(a - b) <= RTOL * np.maximum(np.abs(a), np.abs(b)) + 1e-15 * m
        return bool((eq | d).all())


def digest(x):
    h = hashlib.blake2b(digest_size=8)

    def w(v):
        if isinstance(v, np.ndarray):
            h.update(str(v.dtype).encode() + str(v.shape).encode())
            h.update(np.ascontiguousarray(v).tobytes())
        elif isinstance(v, (tuple, list)):
            h.update(b"(%d" % len(v))
            for y in v:
                w(y)
        else:
            h.update(repr(v).encode())
    w(x)
    return h.hexdigest()


def brief(x, lim=160):
    def w(v):
        if isinstance(v, np.ndarray):
            f = v.reshape(-1)
            t = ", ".join("%.12g" % z if v.dtype.kind == "f" else str(z) for z in f[:4])
            return "%s%s[%s%s]" % (v.dtype, list(v.shape), t, ", ..." if f.size > 4 else "")
        if isinstance(v, tuple) and v and v[0] == "nd":
            return w(v[3])
        if isinstance(v, tuple) and v and v[0] in ("s", "c"):
            return repr(v[2])
        if isinstance(v, tuple) and v and v[0] == "t":
            return "(" + ", ".join(w(y) for y in v[2]) + ")"
        if isinstance(v, (tuple, list)):
            return "(" + ", ".join(w(y) for y in v) + ")"
        return repr(v)
    s = w(x)
    return s if len(s) <= lim else s[:lim] + "..."
