"""JSON-able argument specifications and their materialisation.

A value spec is a plain JSON scalar/None/str/bool, or a dict with key "t":
  arr   {"t":"arr","g":[kind,...],"n":n,"shape":[..]?,"dtype":..,"lay":..,"ed":[[i,v]..]}
  list  {"t":"list","v":[..]}      tup {"t":"tup","v":[..]}
  np    {"t":"np","v":x,"dtype":"float64"}
  ser   {"t":"ser","a":<arr spec>,"idx":"range"|"off"|"rev"}
  cmap  {"t":"cmap","v":"viridis"}  (a colour map object)
  slot  {"t":"slot","i":k}          (resolved by the executor)
"""
import numpy as np

_pd = None


def _pandas():
    global _pd
    if _pd is None:
        import pandas
        _pd = pandas
    return _pd


def base_values(s):
    g = s["g"]
    k = g[0]
    n = s.get("n", 1)
    if k == "lin":
        v = np.linspace(g[1], g[2], n)
    elif k == "rng":
        v = np.random.Generator(np.random.PCG64(g[1])).uniform(g[2], g[3], n)
    elif k == "val":
        v = np.array(g[1], dtype=float)
    elif k == "log":
        v = np.logspace(g[1], g[2], n)
    elif k == "mat6":          # positive definite VTI-like stiffness from 5 constants
        c11, c33, c13, c44, c66 = g[1]
        c12 = c11 - 2 * c66
        v = np.zeros((6, 6))
        v[:3, :3] = [[c11, c12, c13], [c12, c11, c13], [c13, c13, c33]]
        v[3, 3] = v[4, 4] = c44
        v[5, 5] = c66
    elif k == "inv6":
        v = np.linalg.inv(base_values({"g": ["mat6", g[1]]}))
    else:
        raise ValueError(k)
    v = np.array(v, dtype=float)
    flat = v.reshape(-1)
    for i, x in s.get("ed", ()):
        if flat.size:
            flat[i % flat.size] = np.nan if x == "nan" else x
    for op in s.get("tr", ()):
        if op == "rev":
            flat[:] = flat[::-1].copy()
        elif op == "swap" and flat.size >= 4:      # same ends, same sum, interior permuted
            flat[1:-1] = flat[1:-1][::-1].copy()
        elif op == "rot" and flat.size >= 2:
            flat[:] = np.roll(flat, 1)
        elif op[0] == "mul":
            flat *= op[1]
        elif op[0] == "scl" and flat.size:
            flat[op[1] % flat.size] *= op[2]
    if "shape" in s:
        v = v.reshape(s["shape"])
    return v


def make_arr(s):
    with np.errstate(all="ignore"):
        v = base_values(s).astype(s.get("dtype", "float64"))
    lay = s.get("lay", "C")
    if lay == "C":
        return np.ascontiguousarray(v) if v.ndim else v
    if lay == "ro":
        v = v.copy()
        v.flags.writeable = False
        return v
    if lay == "F":
        return np.asfortranarray(v)
    if lay == "str":           # every second element of a larger buffer
        big = np.full(tuple(2 * d for d in v.shape), 7.25, dtype=v.dtype)
        w = big[tuple(slice(None, None, 2) for _ in v.shape)]
        w[...] = v
        return w
    if lay == "neg":
        return v[..., ::-1].copy()[..., ::-1]
    if lay == "rostr":
        w = make_arr(dict(s, lay="str"))
        w.flags.writeable = False
        return w
    if lay in ("mm", "mmro"):  # a view of mapped memory, as np.load(mmap_mode) or np.memmap hands out
        return mapped(v, lay == "mmro")
    if lay == "be":            # foreign byte order, as read from a SEG-Y or LAS binary
        return np.array(v, dtype=v.dtype.newbyteorder(">"))
    if lay == "view":          # a slice of a longer log
        flat = np.concatenate([np.full(3, -999.25), v.reshape(-1), np.full(2, -999.25)]).astype(v.dtype)
        return flat[3:3 + v.size].reshape(v.shape)
    if lay == "0d":
        return v.reshape(-1)[:1].reshape(())
    raise ValueError(lay)


def mapped(v, ro):
    import mmap
    if v.size == 0:
        return v
    m = mmap.mmap(-1, v.nbytes)
    a = np.ndarray.__new__(np.memmap, v.shape, dtype=v.dtype, buffer=m)
    a._mmap, a.offset, a.mode, a.filename = m, 0, "r+" if not ro else "r", None
    a[...] = v
    if ro:
        a.flags.writeable = False
    return a


def make(s, slots=None):
    if not isinstance(s, dict):
        return s
    t = s["t"]
    if t == "arr":
        return make_arr(s)
    if t == "list":
        return [make(x, slots) for x in s["v"]]
    if t == "tup":
        return tuple(make(x, slots) for x in s["v"])
    if t == "np":
        return np.dtype(s["dtype"]).type(s["v"])
    if t == "ser":
        pd = _pandas()
        a = make_arr(s["a"])
        n = a.size
        idx = {"range": np.arange(n), "off": np.arange(n) + 100,
               "rev": np.arange(n)[::-1].copy()}[s.get("idx", "range")]
        return pd.Series(np.array(a).reshape(-1), index=idx)
    if t == "cmap":
        import matplotlib
        return matplotlib.colormaps[s["v"]]
    if t == "slot":
        return slots[s["i"]]
    raise ValueError(t)


def resolve(s, slotspecs):
    """Replace slot references by the value specs they currently hold."""
    if isinstance(s, dict):
        if s.get("t") == "slot":
            return slotspecs[s["i"]]
        return {k: resolve(v, slotspecs) for k, v in s.items()}
    if isinstance(s, list):
        return [resolve(x, slotspecs) for x in s]
    return s


TWIN = {"C": "ro", "str": "rostr", "mm": "mmro"}


def readonly_twin(s):
    """The same value spec with every array read-only (None if there is no array)."""
    hit = []

    def w(x):
        if isinstance(x, dict):
            if x.get("t") == "arr" and x.get("lay", "C") in TWIN:
                hit.append(1)
                return dict(x, lay=TWIN[x.get("lay", "C")])
            return {k: w(v) for k, v in x.items()}
        if isinstance(x, list):
            return [w(v) for v in x]
        return x
    r = w(s)
    return r if hit else None
