"""Where the SDK changes state that outlives a call.

Running an operation twice, in a child, and looking at every line at the state
reachable from the SDK's modules, classes and functions (and at the objects the
operation is applied to) gives the places where a switch or a fault is most
likely to matter.  They only steer the seeded search; no verdict depends on them.
"""
import collections
import contextvars
import dis
import enum
import functools
import sys
import threading
import types

import parsimonious

from . import engine, specs

PLAIN = (str, bytes, int, float, bool, type(None), complex)
ROOTS = ("snuba_sdk", "collections", "weakref", "_weakref", "_weakrefset", "queue", "functools", "types", "sim")
MAX_LINES = 4000
MAX_NODES = 3000


def scan(extra):
    """(always, sometimes): parallel lists of [getter-less containers], names."""
    fast, fname, slow, sname, gets, gname = [], [], [], [], [], []
    seen = set()
    todo = []
    for mn in sorted(sys.modules):
        m = sys.modules[mn]
        if m is not None and (mn == "snuba_sdk" or mn.startswith("snuba_sdk.")):
            fast.append(m.__dict__)
            fname.append(None)
            todo += [(v, k) for k, v in m.__dict__.items() if not k.startswith("__")]
    todo += [(o, "") for o in extra]
    while todo and len(seen) < MAX_NODES:
        x, nm = todo.pop()
        if isinstance(x, PLAIN) or id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (dict, set, list)) and len(x) > 150:
            gets.append(x.__len__)
            gname.append(nm)
            continue
        if nm == "repr_running" or isinstance(x, parsimonious.Grammar):
            continue
        if isinstance(x, type):
            if not (x.__module__ or "").startswith("snuba_sdk") or issubclass(x, enum.Enum):
                continue
            slow.append(x.__dict__)
            sname.append(None)
            todo += [(v, k) for k, v in x.__dict__.items() if not k.startswith("__dataclass") and k not in ("__annotations__", "__match_args__", "__weakref__")]
            continue
        if isinstance(x, types.ModuleType) or isinstance(x, enum.Enum):
            continue
        if isinstance(x, (staticmethod, classmethod)):
            todo.append((x.__func__, nm))
            continue
        if isinstance(x, property):
            todo += [(f, nm) for f in (x.fget, x.fset) if f]
            continue
        if isinstance(x, types.FunctionType):
            if not (x.__module__ or "").startswith("snuba_sdk"):
                continue
            if set(x.__dict__) - {"__wrapped__", "__isabstractmethod__"}:
                fast.append(x.__dict__)
                fname.append(None)
            todo += [(v, nm) for v in x.__dict__.values()]
            todo += [(v, nm) for v in (x.__defaults__ or ()) + tuple((x.__kwdefaults__ or {}).values())]
            for n, c in zip(x.__code__.co_freevars, x.__closure__ or ()):
                if n in _rebinds(x.__code__):
                    gets.append(lambda c=c: _cell(c))
                    gname.append(n)
                todo.append((_cell(c), n))
            continue
        if isinstance(x, functools._lru_cache_wrapper):
            gets.append(x.cache_info)
            gname.append(nm)
            todo.append((x.__wrapped__, nm))
            continue
        if isinstance(x, types.MethodType):
            todo += [(x.__self__, nm), (x.__func__, nm)]
            continue
        if isinstance(x, contextvars.ContextVar):
            gets.append(lambda x=x: x.get(None))
            gname.append(nm)
            todo.append((x.get(None), nm))
            continue
        if isinstance(x, dict):
            fast.append(x)
            fname.append(nm)
            todo += [(v, nm) for v in x.values()]
            continue
        if isinstance(x, (list, set, collections.deque, bytearray)):
            fast.append(x)
            fname.append(nm)
            if not isinstance(x, bytearray):
                todo += [(v, nm) for v in x]
            continue
        if isinstance(x, (tuple, frozenset)):
            todo += [(v, nm) for v in x]
            continue
        mod = type(x).__module__ or ""
        if isinstance(x, threading.local) or mod.split(".")[0] in ROOTS:
            d = getattr(x, "__dict__", None)
            if type(d) is dict:
                fast.append(d)
                fname.append(None if mod.startswith("snuba_sdk") else nm)
                todo += [(v, nm if not mod.startswith("snuba_sdk") else k) for k, v in d.items()]
            for k in getattr(type(x), "__slots__", ()) if mod.startswith("snuba_sdk") else ():
                gets.append(lambda x=x, k=k: getattr(x, k, None))
                gname.append(k)
                todo.append((getattr(x, k, None), k))
    return fast, fname, slow, sname, gets, gname


@functools.lru_cache(None)
def _rebinds(code):
    """Enclosing variables that the function assigns."""
    return frozenset(i.argval for i in dis.get_instructions(code) if i.opname in ("STORE_DEREF", "DELETE_DEREF"))


def _cell(c):
    try:
        return c.cell_contents
    except ValueError:
        return None


class State:
    def __init__(self, extra):
        self.extra = extra
        self.names = set()
        self.take()

    def take(self):
        self.fast, self.fname, self.slow, self.sname, self.gets, self.gname = scan(self.extra)
        self.sfast = [x.copy() for x in self.fast]
        self.sslow = [x.copy() for x in self.slow]
        self.sgets = [g() for g in self.gets]

    def changed(self, full):
        try:
            if self.fast == self.sfast and all(g() is s or g() == s for g, s in zip(self.gets, self.sgets)):
                if not full or self.slow == self.sslow:
                    return False
        except Exception:
            pass
        for live, saved, nm in list(zip(self.fast, self.sfast, self.fname)) + list(zip(self.slow, self.sslow, self.sname)):
            try:
                if live == saved:
                    continue
            except Exception:
                continue
            if nm is not None:
                self.names.add(nm)
            else:
                for k in set(live) | set(saved):
                    if live.get(k, self) is not saved.get(k, self) and isinstance(k, str):
                        self.names.add(k)
        for g, s, nm in zip(self.gets, self.sgets, self.gname):
            v = g()
            if v is not s and v != s:
                self.names.add(nm)
        self.take()
        return True


def loc(code):
    f = code.co_filename
    i = f.rfind("snuba_sdk/")
    return f[i:] if i >= 0 else f, code.co_qualname


def probe(op):
    pred = engine.traced_pred(False)
    codeok = {}
    st = State([])
    hot = set()
    n = [0]
    prev = [None]

    def at(code, line):
        hot.add(loc(code) + (line,))

    def lt(frame, event, arg):
        if n[0] > MAX_LINES:
            return None
        if event == "line" or event == "return":
            n[0] += 1
            if st.changed(event == "return"):
                if prev[0]:
                    at(*prev[0])
                at(frame.f_code, frame.f_lineno)
            prev[0] = (frame.f_code, frame.f_lineno)
        return lt

    def gt(frame, event, arg):
        code = frame.f_code
        ok = codeok.get(code)
        if ok is None:
            ok = codeok[code] = pred(code)
        return lt if ok and n[0] <= MAX_LINES else None

    def mark(o=None):
        st.extra = [o] if o is not None else []
        st.take()

    specs.MARK = mark
    for _ in range(2):
        st.extra = []
        st.take()
        n[0] = 0
        try:
            sys.settrace(gt)
            try:
                specs.execute(op)
            finally:
                sys.settrace(None)
        except BaseException:
            sys.settrace(None)
    specs.MARK = None
    return {"locs": sorted(map(list, hot)), "names": sorted(x for x in st.names if x)}


def codes():
    """Every code object of the SDK."""
    out, seen, todo = [], set(), []
    root = engine.repo_root() + "/"
    for mn, m in list(sys.modules.items()):
        if m is not None and (mn == "snuba_sdk" or mn.startswith("snuba_sdk.")):
            for v in list(m.__dict__.values()):
                todo.append(v)
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, types.CodeType):
            if x.co_filename.startswith(root) or x.co_filename == "<string>":
                out.append(x)
                todo += [c for c in x.co_consts if isinstance(c, types.CodeType)]
        elif isinstance(x, types.FunctionType):
            todo.append(x.__code__)
            todo += [c.cell_contents for c in x.__closure__ or () if _cell(c) is not None]
        elif isinstance(x, (staticmethod, classmethod)):
            todo.append(x.__func__)
        elif isinstance(x, property):
            todo += [f for f in (x.fget, x.fset) if f]
        elif isinstance(x, functools._lru_cache_wrapper):
            todo.append(x.__wrapped__)
        elif isinstance(x, type) and (x.__module__ or "").startswith("snuba_sdk"):
            todo += list(x.__dict__.values())
    return out


def users(names):
    """Lines of SDK code that mention one of the names as a global or attribute."""
    names = set(names)
    out = set()
    for c in codes():
        line = None
        for ins in dis.get_instructions(c):
            if ins.starts_line is not None:
                line = ins.starts_line
            if ins.argval in names if isinstance(ins.argval, str) else False:
                if line is not None and ("ATTR" in ins.opname or "GLOBAL" in ins.opname or "NAME" in ins.opname or "DEREF" in ins.opname or "METHOD" in ins.opname):
                    out.add(loc(c) + (line,))
    return out
