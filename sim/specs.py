"""JSON descriptions of SDK objects and operations, and how to run them.

A spec is plain JSON, so that an operation can be generated without calling the
SDK, stored in a replay file, and built independently in any process:
  null/true/1/1.5/"s"                      themselves
  {"T":"list"|"tuple"|"set","v":[...]}      {"T":"dict","v":[[k,v],...]}
  {"T":"bytes","v":"hex"}                   {"T":"dt","v":[y,m,d,...],"tz":...}
  {"T":"date","v":[y,m,d]}                  {"T":"enum","v":"Op.EQ"}
  {"T":"seq","v":[...],"fail":n|null,"cb":k|null}   a caller-defined Sequence
  {"T":"<SDK class>","a":{field: spec,...}}
  {"T":"sh","i":n}                          n-th shared object of the run
"""
import copy
import collections.abc
import dataclasses
import datetime
import enum
import importlib
import re
import sys
from _thread import get_ident

import _strptime  # noqa: F401  (otherwise imported lazily by the first call)

import snuba_sdk


def _opt(mod, name):
    """A part of the SDK below its documented top level; absent is fine, the
    operations that use it directly are then left out."""
    try:
        return getattr(importlib.import_module("snuba_sdk." + mod), name)
    except (ImportError, AttributeError):
        return None


CLASSES = {n: getattr(snuba_sdk, n) for n in snuba_sdk.__all__}
CLASSES["SchemaColumn"] = _opt("schema", "Column")
for _m, _n in (
    ("schema", "DataModel"),
    ("visitors", "Translation"),
    ("visitors", "ExpressionFinder"),
    ("query_visitors", "Printer"),
    ("query_visitors", "ExpressionSearcher"),
    ("mql_visitor", "MQLPrinter"),
):
    CLASSES[_n] = _opt(_m, _n)
PARSE = _opt("mql.mql", "parse_mql")
LEGACY = _opt("legacy", "json_to_snql")
REQUIRED = _opt("query_validation", "validate_required_columns")
FIRST = _opt("conditions", "get_first_level_and_conditions")
NEEDS = {
    "parse": PARSE, "legacy": LEGACY, "required": REQUIRED, "first": FIRST, "tr": CLASSES["Translation"],
    "find": CLASSES["ExpressionFinder"], "search": CLASSES["ExpressionSearcher"], "print": CLASSES["Printer"],
}
MISSING = sorted(k for k, v in NEEDS.items() if v is None)
TOOLS = tuple(
    c
    for c in (
        _opt("visitors", "ExpressionVisitor"),
        _opt("query_visitors", "QueryVisitor"),
        CLASSES["MQLPrinter"],
        CLASSES["Printer"],
        CLASSES["Translation"],
        CLASSES["ExpressionFinder"],
    )
    if c is not None
)


class CallerFault(Exception):
    """Raised by the caller's own data in the middle of an SDK call."""


IN_CALL = set()  # threads inside a call proper (not merely building its arguments)
CALLBACK = None  # set by the engine: called with k when caller data is touched


def _fire(k):
    if k is not None and CALLBACK is not None:
        CALLBACK(k)


class CallerTZ(datetime.tzinfo):
    def __init__(self, minutes, fail, cb):
        self.minutes, self.fail, self.cb = minutes, fail, cb

    def utcoffset(self, dt):
        _fire(self.cb)
        if self.fail:
            raise CallerFault("tzinfo failed")
        return datetime.timedelta(minutes=self.minutes)

    def dst(self, dt):
        return datetime.timedelta(0)

    def tzname(self, dt):
        return "X"

    def __repr__(self):
        return "CallerTZ(%r)" % self.minutes


class CallerDST(datetime.tzinfo):
    """A zone in which one hour occurs twice (2021-10-31 02:00 to 03:00)."""

    def utcoffset(self, dt):
        if dt is None:
            return None
        t = (dt.month, dt.day, dt.hour)
        summer = (3, 28, 3) <= t < (10, 31, 2) or ((10, 31, 2) <= t < (10, 31, 3) and not dt.fold)
        return datetime.timedelta(hours=2 if summer else 1)

    def dst(self, dt):
        return self.utcoffset(dt) - datetime.timedelta(hours=1)

    def tzname(self, dt):
        return "DST"

    def __repr__(self):
        return "DST"

    def __reduce__(self):
        return dst_zone, ()


def dst_zone():
    return DST


DST = CallerDST()


class CallerSeq(collections.abc.Sequence):
    def __init__(self, v, fail, cb):
        self.v, self.fail, self.cb = v, fail, cb

    def __getitem__(self, i):
        _fire(self.cb)
        if self.fail is not None and get_ident() in IN_CALL and i >= self.fail:
            raise CallerFault("sequence failed")
        return self.v[i]

    def __len__(self):
        return len(self.v)

    def __repr__(self):
        return "CallerSeq(%r)" % (self.v,)


def build(s, shared=None):
    if s is None or isinstance(s, (bool, int, float, str)):
        return s
    t = s["T"]
    if t == "list":
        return [build(x, shared) for x in s["v"]]
    if t == "tuple":
        return tuple(build(x, shared) for x in s["v"])
    if t == "set":
        return set(build(x, shared) for x in s["v"])
    if t == "dict":
        return {build(k, shared): build(v, shared) for k, v in s["v"]}
    if t == "sh":
        return shared[s["i"]]
    if t == "bytes":
        return bytes.fromhex(s["v"])
    if t == "dt":
        tz = s.get("tz")
        if tz is None:
            z = None
        elif tz == "dst":
            return datetime.datetime(*s["v"], tzinfo=DST, fold=s["fold"])
        elif isinstance(tz, (int, float)):
            z = datetime.timezone(datetime.timedelta(minutes=tz))
        else:
            z = CallerTZ(tz["m"], tz.get("fail", False), tz.get("cb"))
        return datetime.datetime(*s["v"], tzinfo=z)
    if t == "date":
        return datetime.date(*s["v"])
    if t == "enum":
        c, m = s["v"].split(".")
        return CLASSES[c][m]
    if t == "type":
        return CLASSES[s["v"]]
    if t == "seq":
        return CallerSeq([build(x, shared) for x in s["v"]], s.get("fail"), s.get("cb"))
    return CLASSES[t](**{k: build(v, shared) for k, v in s["a"].items()})


def canon(x, depth=0):
    """A JSON value that two objects share exactly when their types, public
    contents and order are the same."""
    if depth > 60:
        return ["deep"]
    if x is None:
        return None
    t = type(x)
    if t is bool:
        return x
    if t is str:
        return x
    if t is int:
        return ["i", str(x)]
    if t is float:
        return ["f", repr(x)]
    if t in (bytes, datetime.date, datetime.timedelta):
        return ["r", repr(x)]
    if isinstance(x, datetime.datetime):
        tz = x.tzinfo
        if isinstance(tz, CallerTZ):
            return ["dt", repr(x.replace(tzinfo=None)), "caller", tz.minutes]
        return ["dt", repr(x)]
    if isinstance(x, enum.Enum):
        return ["e", t.__name__, x.name]
    if isinstance(x, type):
        return ["t", x.__name__]
    if t is list:
        return ["l", [canon(v, depth + 1) for v in x]]
    if t is tuple:
        return ["u", [canon(v, depth + 1) for v in x]]
    if t in (set, frozenset):
        return ["s", sorted((repr(canon(v, depth + 1)) for v in x))]
    if isinstance(x, dict):
        return ["d", [[canon(k, depth + 1), canon(v, depth + 1)] for k, v in x.items()]]
    if isinstance(x, CallerSeq):
        return ["cs", [canon(v, depth + 1) for v in x.v]]
    if dataclasses.is_dataclass(x):
        return [
            "o",
            t.__name__,
            [
                [f.name, canon(getattr(x, f.name), depth + 1)]
                for f in dataclasses.fields(x)
                if not f.name.startswith("_")
            ],
        ]
    if isinstance(x, collections.abc.Sequence) and not isinstance(x, str):
        return ["q", t.__name__, [canon(v, depth + 1) for v in x]]
    return ["x", t.__name__]


_ADDR = re.compile(r"0x[0-9a-fA-F]+")


def err(e):
    try:
        msg = str(e)
    except BaseException as e2:  # a message built from failing caller data
        msg = "<unprintable %s>" % type(e2).__name__
    return ["err", type(e).__name__, _ADDR.sub("0x", msg)[:2000]]


def mutable_parts(x, out=None, depth=0):
    """ids of the mutable containers/objects reachable from x through public data."""
    if out is None:
        out = {}
    if depth > 60 or id(x) in out:
        return out
    if isinstance(x, (list, set)):
        out[id(x)] = x
        for v in x:
            mutable_parts(v, out, depth + 1)
    elif isinstance(x, dict):
        out[id(x)] = x
        for v in x.values():
            mutable_parts(v, out, depth + 1)
    elif isinstance(x, tuple):
        for v in x:
            mutable_parts(v, out, depth + 1)
    elif dataclasses.is_dataclass(x) and not isinstance(x, type):
        if not x.__dataclass_params__.frozen:
            out[id(x)] = x
        for f in dataclasses.fields(x):
            if not f.name.startswith("_"):
                mutable_parts(getattr(x, f.name), out, depth + 1)
    return out


def spoil(x, depth=0):
    """Modify, in place, everything mutable a caller received."""
    if depth > 60:
        return
    if isinstance(x, list):
        for v in list(x):
            spoil(v, depth + 1)
        x.append("SPOILED")
        if len(x) > 2:
            del x[0]
    elif isinstance(x, set):
        x.add("SPOILED")
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        for k in list(x)[:1]:
            x[k] = "SPOILED"
        x["SPOILED"] = 1
    elif dataclasses.is_dataclass(x) and not isinstance(x, type):
        for f in dataclasses.fields(x):
            spoil(getattr(x, f.name), depth + 1)
        if not x.__dataclass_params__.frozen:
            for f in dataclasses.fields(x):
                if f.init:
                    try:
                        setattr(x, f.name, "SPOILED")
                    except Exception:
                        pass


def spoil_top(x):
    """Set every field of a mutable object (a shallow copy shares the rest)."""
    if dataclasses.is_dataclass(x) and not x.__dataclass_params__.frozen:
        for f in dataclasses.fields(x):
            try:
                setattr(x, f.name, "SPOILED")
            except Exception:
                pass


MARK = None  # called between building the arguments and the call proper


def _b(x, shared):
    o = build(x, shared)
    IN_CALL.add(get_ident())
    if MARK is not None:
        MARK(o)
    return o


def execute(op, shared=None):
    """Run one operation against the real SDK; return its raw result."""
    me = get_ident()
    nested = me in IN_CALL
    IN_CALL.discard(me)
    try:
        return _execute(op, shared)
    finally:
        (IN_CALL.add if nested else IN_CALL.discard)(me)


def _execute(op, shared):
    k = op["k"]
    if k == "call":
        o = _b(op["o"], shared)
        m = op["m"]
        if m == "str":
            return str(o)
        if m == "repr":
            return repr(o)
        if m == "eq":
            o2 = build(op["y"], shared)
            return [o == o2, o2 == o, o != o2]
        if m == "hash":
            try:
                return hash(o)
            except TypeError:
                return "unhashable"
        return getattr(o, m)()
    if k == "parse":
        return PARSE(op["s"])
    if k == "legacy":
        b = _b(op["o"], shared)
        r = LEGACY(b, op["e"])
        return [canon(r), r.serialize()]
    if k == "legacyreq":  # only what the request was given by default
        r = LEGACY(_b(op["o"], shared), op["e"])
        return [getattr(r, f) for f in op["only"]]
    if k == "tr":
        if "via" in op:
            tr = build(op["via"], shared)
        else:
            tr = CLASSES["Translation"](is_mql=bool(op.get("mql")))
        return tr.visit(_b(op["o"], shared))
    if k == "print":
        return build(op["via"], shared).visit(_b(op["o"], shared))
    if k == "find":
        t = CLASSES[op["t"]]
        if "via" in op:
            f = build(op["via"], shared)
        else:
            f = CLASSES["ExpressionFinder"](t)
        r = f.visit(_b(op["o"], shared))
        return ["found", sorted(repr(canon(x)) for x in r)]
    if k == "search":
        f = CLASSES["ExpressionSearcher"](CLASSES[op["t"]])
        r = f.visit(_b(op["o"], shared))
        return ["found", sorted(repr(canon(x)) for x in r)]
    if k == "required":
        return REQUIRED(
            _b(op["o"], shared)
        )
    if k == "first":
        return FIRST(
            _b(op["o"], shared)
        )
    if k == "set":
        o = build(op["o"], shared)
        x = [build(x, shared) for x in op["x"]]
        IN_CALL.add(get_ident())
        if MARK is not None:
            MARK(o)
        return getattr(o, op["f"])(*x)
    if k == "build":
        return build(op["o"], shared)
    if k == "edited":  # built, edited, and only then used for the first time
        spec = copy.deepcopy(op["root"])
        live = build(spec)
        for e in op["edits"]:
            apply_edit(live, spec, e)
        return _execute(dict(op["op"], o={"T": "sh", "i": 0}), [live])
    raise AssertionError(k)


def nav(live, spec, path):
    for k in path:
        T = spec["T"]
        if T in ("list", "tuple"):
            live, spec = live[k], spec["v"][k]
        elif T == "dict":
            live, spec = live[k], next(v for kk, v in spec["v"] if kk == k)
        else:
            live, spec = getattr(live, k), spec["a"][k]
    return live, spec


def apply_edit(live, spec, e):
    """The same edit on the live object and on its description."""
    lv, sp = nav(live, spec, e["path"])
    d = e["do"]
    if d == "append":
        lv.append(build(e["v"]))
        sp["v"].append(copy.deepcopy(e["v"]))
    elif d == "pop":
        lv.pop(e["i"])
        sp["v"].pop(e["i"])
    elif d == "put":
        lv[e["i"]] = build(e["v"])
        sp["v"][e["i"]] = copy.deepcopy(e["v"])
    elif d == "swap":
        lv.reverse()
        sp["v"].reverse()
    elif d == "clear":
        lv.clear()
        sp["v"].clear()
    elif d == "key":
        lv[e["k"]] = build(e["v"])
        for kv in sp["v"]:
            if kv[0] == e["k"]:
                kv[1] = copy.deepcopy(e["v"])
                break
        else:
            sp["v"].append([e["k"], copy.deepcopy(e["v"])])
    elif d == "delkey":
        del lv[e["k"]]
        sp["v"][:] = [kv for kv in sp["v"] if kv[0] != e["k"]]
    elif d == "attr":
        setattr(lv, e["k"], build(e["v"]))
        sp["a"][e["k"]] = copy.deepcopy(e["v"])


def run_op(op, shared=None):
    try:
        return ["ok", canon(execute(op, shared))]
    except BaseException as e:
        return err(e)


def snapshot(objs):
    """Contents of the caller's query objects (not of printers and the like)."""
    return [None if isinstance(o, TOOLS) else canon(o) for o in objs]


def containers(objs):
    """Everything in objs that could be changed in place: lists, dicts, sets and
    instance dictionaries."""
    out, seen, todo = [], set(), [o for o in objs if not isinstance(o, TOOLS)]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, (list, set)):
            out.append(x)
            todo.extend(x)
        elif isinstance(x, tuple):
            todo.extend(x)
        elif isinstance(x, dict):
            out.append(x)
            todo.extend(x.values())
        elif isinstance(x, CallerSeq):
            todo.extend(x.v)
        elif dataclasses.is_dataclass(x) and not isinstance(x, type) and hasattr(x, "__dict__"):
            out.append(x.__dict__)
            todo.extend(x.__dict__.values())
    return out


def subst(op, shared_specs):
    """The same operation with shared references replaced by their specs."""

    def go(x):
        if isinstance(x, dict):
            if x.get("T") == "sh":
                return go(shared_specs[x["i"]])
            return {k: go(v) for k, v in x.items()}
        if isinstance(x, list):
            return [go(v) for v in x]
        return x

    return go(op)
