"""Directed search: which code differs from the tree this machinery was last calibrated on.

`codemap.json` holds a fingerprint of the byte code of every function of the package (written by tools/mkcodemap.py).
Models that run code with another fingerprint get a larger share of the groups, and steps inside such code are preferred
for switches and faults.  Guidance only: no verdict looks at it, and without the file the search is uniform."""
import dis
import gc
import hashlib
import json
import os
import types

from . import sched as S

PATH = os.path.join(os.path.dirname(os.path.abspath(__file__)), "codemap.json")
CHANGED = set()        # code objects
LABELS = set()         # "qualname:firstlineno" of the same
EDGES = {}             # label -> labels of functions it may call by name


def label(c):
    return "%s:%d" % (c.co_qualname, c.co_firstlineno)


def fingerprint(code):
    h = hashlib.blake2b(digest_size=8)
    h.update(repr((code.co_argcount, code.co_kwonlyargcount, code.co_flags & 0xff, code.co_exceptiontable != b"")).encode())
    for i in dis.get_instructions(code):
        if i.opname in ("CACHE", "NOP", "RESUME"):
            continue
        a = i.argval
        if isinstance(a, types.CodeType):
            a = a.co_qualname
        elif isinstance(a, frozenset):
            a = sorted(map(repr, a))
        elif i.opname in ("LOAD_CONST", "RETURN_CONST") and isinstance(a, str) and len(a) > 60:
            a = "text"
        h.update(("%s %r\n" % (i.opname, a)).encode())
    return h.hexdigest()


def functions():
    out = {}

    def one(code):
        if code in out or not S.is_sut(code):
            return
        out[code] = os.path.relpath(code.co_filename, S.PKG) + ":" + code.co_qualname
        for k in code.co_consts:
            if isinstance(k, types.CodeType):
                one(k)
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            one(o.__code__)
    return out


def load():
    """Called in the zygote, after the package is imported."""
    CHANGED.clear(), LABELS.clear(), EDGES.clear()
    try:
        with open(PATH) as fh:
            known = json.load(fh)
    except (OSError, ValueError):
        return
    fs = functions()
    for code, name in fs.items():
        if fingerprint(code) not in known.get(name, ()):
            CHANGED.add(code)
            LABELS.add(label(code))
    if not CHANGED:
        return
    byname = {}
    for code in fs:
        byname.setdefault(code.co_name, set()).add(label(code))
    for code in fs:
        e = set()
        for n in code.co_names:
            e |= byname.get(n, set())
        e |= {label(k) for k in code.co_consts if isinstance(k, types.CodeType)}
        EDGES[label(code)] = e


def degree(labels, fn=None):
    """3: the model itself is changed; 2: the calls seen run changed code; 1: they may reach some; 0: neither."""
    if not LABELS:
        return 0
    code = getattr(fn, "__code__", None)
    if code is not None and code in CHANGED:
        return 3
    if set(labels) & LABELS:
        return 2
    seen, todo = set(), list(labels)
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if k in LABELS:
            return 1
        todo += EDGES.get(k, ())
    return 0
