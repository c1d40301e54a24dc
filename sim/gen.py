"""Seeded generation of operation specs.  Never calls the SDK.

Workloads come in *families*: one base operation and several near-identical
variants (one leaf changed: 1/True/1.0, case, white space, an alias, list/tuple,
a quote, a missing clause ...), because state that leaks between calls shows
when two calls are almost, but not quite, the same.
"""
import copy
import json
import random
import unicodedata


def L(*v):
    return {"T": "list", "v": list(v)}


def LL(v):
    return {"T": "list", "v": list(v)}


def U(v):
    return {"T": "tuple", "v": list(v)}


def D(pairs):
    return {"T": "dict", "v": [list(p) for p in pairs]}


def O(t, **a):
    return {"T": t, "a": a}


def E(v):
    return {"T": "enum", "v": v}


COLS = [
    "title", "event_id", "project_id", "timestamp", "user", "tags[env]", "tags[release.v]",
    "a.b", "transaction.duration", "http.status_code", "tags[]", "contexts[os.name]", "_x", "started",
    "org_id", "status", "type", "contexts.key", "m:n/o@p",
]
ENTS = ["events", "transactions", "sessions", "discover", "spans"]
FUNCS = [
    "count", "uniq", "sum", "avg", "toStartOfHour", "quantile", "quantiles", "ifNull", "divide", "multiply",
    "topK", "arrayMap", "arrayJoin", "equals", "tuple", "max", "min", "countIf", "identity", "plus",
]
ALIASES = ["a", "b", "uniq_events", "p50", "x.y", "c:d", "f(x)", "a[b]", "cnt", "a+b"]
STRS = [
    "", "a", "b", "A", "it's", 'say "hi"', "back\\slash", "new\nline", "\\'", "\\n", "%like%", "ünï", "日本", "x" * 40, "long " * 60,
    " lead", "trail ", "tab\t", "1", "TRUE", "NULL", "a,b", "{a}", "(b)", "*", "pre*", "`q`", "2021-01-01T00:00:00",
    "a b", "a  b", "a\tb", "a b ", "a\n", "\u00e9", "e\u0301", "01", "1.0", "true", "None", "\u00df", "ss", "a\u00a0b", "a\u200bb", "\x00", "a'b'c",
]
OPS = ["GT", "LT", "GTE", "LTE", "EQ", "NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE", "IS_NULL", "IS_NOT_NULL"]


class G:
    def __init__(self, seed, faults=False):
        self.r = random.Random(seed)
        self.faults = faults  # allow caller data that fails
        self.cbs = 0
        self.big = False  # one list of this operation is long

    # -- helpers -------------------------------------------------------
    def p(self, x):
        return self.r.random() < x

    def ch(self, xs):
        return xs[self.r.randrange(len(xs))]

    def n(self, a, b):
        return self.r.randint(a, b)

    def several(self, f, a, b):
        """a to b of them; sometimes many, sometimes with repetitions."""
        x = self.r.random()
        n = self.n(a, b)
        if x < 0.06 and b > 1:
            n += self.n(1, 5)
        if self.big and b > 1 and self.p(0.3):
            self.big = False
            n += self.n(6, 24) if self.p(0.75) else self.n(25, 70)
        out = [f() for _ in range(n)]
        if 0.06 < x < 0.2 and out and b > 1:
            for _ in range(self.n(1, 2)):
                out.insert(self.n(0, len(out)), copy.deepcopy(self.ch(out)))
        return out

    # -- scalars -------------------------------------------------------
    def dt(self):
        r = self.r
        v = [r.choice([2020, 2021, 2024]), r.choice([1, 2, 3, 6, 11, 12]), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 0, 1, 120000, 999999])]
        tz = r.choice([None, None, 0, 60, -480, 330, 765])
        if self.faults and self.p(0.1):
            tz = {"m": 0, "fail": True}
        if self.p(0.12):  # the hour that occurs twice
            return {"T": "dt", "v": [2021, 10, 31, 2, v[4], v[5], v[6]], "tz": "dst", "fold": self.n(0, 1)}
        return {"T": "dt", "v": v, "tz": tz}

    def literal(self):
        x = self.r.random()
        if x < 0.2:
            return self.n(0, 3)
        if x < 0.28:
            return self.ch([True, False])
        if x < 0.36:
            return self.ch([0.0, -0.0, 1.0, 2.0, 0.5, 1e20, -3.25, 1e-7, 1e16, 0.1, float("inf")])
        if x < 0.66:
            return self.ch(STRS)
        if x < 0.72:
            return None
        if x < 0.78:
            if self.faults and self.p(0.4):
                return {"T": "bytes", "v": "61ff62"}
            return {"T": "bytes", "v": self.ch(["", "61", "2761", "0a", "c3a9", "5c"])}
        if x < 0.84:
            return {"T": "date", "v": [2021, self.n(1, 12), self.n(1, 28)]}
        if x < 0.92:
            return self.dt()
        return self.n(-(10 ** self.n(1, 12)), 10 ** self.n(1, 12))

    def scalar(self, d=0):
        if d < 2 and self.p(0.15):
            vs = self.several(lambda: self.scalar(d + 1), 0, 3)
            return U(vs) if self.p(0.5) else LL(vs)
        return self.literal()

    # -- expressions ---------------------------------------------------
    def column(self, ctx):
        if ctx.get("ents"):
            e = self.ch(ctx["ents"])
            if ctx.get("noent") and self.p(0.3):
                return O("Column", name=self.ch(ctx["names"]))
            return O("Column", name=self.ch(ctx["names"]), entity=copy.deepcopy(e))
        return O("Column", name=self.ch(ctx["names"]))

    def function(self, ctx, d=0, alias=None):
        name = self.ch(FUNCS)
        a = {"function": name}
        params = self.several(lambda: self.param(ctx, d + 1), 0, 3)
        cur = self.p(0.2)
        if cur:
            a["initializers"] = LL(self.several(lambda: self.literal() if self.p(0.8) else self.column(ctx), 1, 2))
        if self.p(0.93):
            a["parameters"] = self.seq(params)
        if alias if alias is not None else self.p(0.4):
            a["alias"] = self.ch(ALIASES)
        return O("CurriedFunction" if cur else "Function", **a)

    def seq(self, vs):
        x = self.r.random()
        if self.faults and x < 0.08:
            return {"T": "seq", "v": vs, "fail": self.n(0, 2)}
        if x < 0.75:
            return LL(vs)
        return U(vs)

    def param(self, ctx, d):
        x = self.r.random()
        if x < 0.45:
            return self.column(ctx)
        if x < 0.65 and d < 3:
            return self.function(ctx, d, alias=self.p(0.15))
        if x < 0.7 and d < 3:
            return O("Lambda", identifiers=LL(["x", "y"][: self.n(1, 2)]), transformation=O("Function", function=self.ch(FUNCS), parameters=L(O("Identifier", name="x"), self.literal())))
        if x < 0.73:
            return O("Identifier", name=self.ch(["x", "y_1"]))
        return self.scalar()

    def selectable(self, ctx):
        x = self.r.random()
        if x < 0.45:
            return self.column(ctx)
        if x < 0.6:
            return O("AliasedExpression", exp=self.column(ctx), **({"alias": self.ch(ALIASES)} if self.p(0.8) else {}))
        return self.function(ctx)

    def condition(self, ctx):
        op = self.ch(OPS)
        lhs = self.column(ctx) if self.p(0.75) else self.function(ctx, 1)
        a = {"lhs": lhs, "op": E("Op." + op)}
        if op in ("IS_NULL", "IS_NOT_NULL"):
            if self.p(0.05):
                a["rhs"] = 1
        elif op in ("IN", "NOT_IN"):
            vs = self.several(lambda: self.scalar(1), 1, 4)
            x = self.r.random()
            a["rhs"] = U(vs) if x < 0.5 else LL(vs) if x < 0.8 else O("Function", function="tuple", parameters=LL(vs))
        else:
            x = self.r.random()
            a["rhs"] = self.scalar() if x < 0.75 else self.column(ctx) if x < 0.88 else self.function(ctx, 2)
        return O("Condition", **a)

    def eqs(self, ctx):
        lhs = self.column(ctx) if self.p(0.8) else self.function(ctx, 2)
        n = self.n(2, 4)
        conds = []
        for _ in range(n):
            l2 = copy.deepcopy(lhs)
            if self.p(0.1):
                l2 = self.column(ctx)
            conds.append(O("Condition", lhs=l2, op=E("Op.EQ"), rhs=self.scalar()))
        return self.boolean("Or", conds)

    def boolean(self, k, conds):
        v = LL(conds) if self.p(0.75) else U(conds)
        if self.p(0.25):
            return O("BooleanCondition", op=E("BooleanOp." + k.upper()), conditions=v)
        return O(k, conditions=v)

    def cond(self, ctx, d=0):
        x = self.r.random()
        if d >= 3 or x < 0.6:
            return self.condition(ctx)
        if x < 0.78:
            return self.eqs(ctx)
        return self.boolean(self.ch(["And", "Or"]), self.several(lambda: self.cond(ctx, d + 1), 2, 3))

    def entity(self, alias=None, model=None):
        a = {"name": self.ch(ENTS)}
        if alias:
            a["alias"] = alias
        if self.p(0.25):
            a["sample"] = self.ch([0.1, 0.5, 1.0, 10.0, 0.001])
        if model:
            a["data_model"] = model
        return O("Entity", **a)

    def data_model(self, names):
        base = sorted({x.split("[")[0] for x in names})
        cols = [O("SchemaColumn", name=x, required=(x in ("project_id", "org_id"))) for x in base]
        return O("DataModel", columns=LL(cols), required_time_column=O("SchemaColumn", name="timestamp", required=True))

    def query(self, depth=0, kind=None):
        r = self.r
        kind = kind or self.ch(["entity", "entity", "entity", "storage", "join", "join", "sub"])
        if kind == "sub" and depth >= 3:
            kind = "entity"
        names = r.sample(COLS, self.n(4, 9))
        ctx = {"names": names}
        if kind == "entity":
            model = self.data_model(names) if self.p(0.25) else None
            match = self.entity(alias=self.ch(["e", "ev"]) if self.p(0.3) else None, model=model)
            if match["a"].get("alias") and self.p(0.5):
                ctx["ents"] = [{"T": "Entity", "a": {"name": match["a"]["name"], "alias": match["a"]["alias"]}}]
                ctx["noent"] = True
        elif kind == "storage":
            match = O("Storage", name=self.ch(["metrics_summaries", "errors_ro"]), **({"sample": self.ch([0.2, 1.0, 5.0])} if self.p(0.3) else {}))
            if self.p(0.25):
                match["a"]["data_model"] = self.data_model(names)
        elif kind == "join":
            als = r.sample(["e", "t", "s", "u"], self.n(2, 3))
            ents = [self.entity(alias=a) for a in als]
            rels = [O("Relationship", lhs=ents[0], name=self.ch(["contains", "assigned", "grp"]), rhs=e) for e in ents[1:]]
            match = O("Join", relationships=LL(rels) if self.p(0.7) else U(rels))
            ctx["ents"] = ents
        else:
            inner = self.query(depth + 1, "sub" if self.p(0.35) else None)
            nm = []
            sel = inner["a"].get("select") or LL([])
            for s in sel["v"]:
                if s["T"] == "Column":
                    nm.append(s["a"]["name"])
                elif s["T"] in ("Function", "CurriedFunction") and s["a"].get("alias"):
                    al = s["a"]["alias"]
                    if all(ch.isalnum() or ch in "_.:" for ch in al):
                        nm.append(al)
            if not nm:
                sel["v"].append({"T": "Function", "a": {"function": "count", "parameters": LL([]), "alias": "cnt"}})
                nm = ["cnt"]
            match = inner
            ctx = {"names": nm}
        a = {"match": match, "select": LL(self.several(lambda: self.selectable(ctx), 1, 3))}
        if self.p(0.5):
            a["groupby"] = LL(self.several(lambda: self.selectable(ctx), 1, 2))
        if self.p(0.15):
            a["array_join"] = LL(self.several(lambda: self.column(ctx), 1, 2))
        if self.p(0.75):
            a["where"] = LL(self.several(lambda: self.cond(ctx), 1, 3))
            if kind == "entity" and self.p(0.3):
                a["where"]["v"] += [
                    O("Condition", lhs=O("Column", name="timestamp"), op=E("Op.GTE"), rhs=self.dt()),
                    O("Condition", lhs=O("Column", name="timestamp"), op=E("Op.LT"), rhs=self.dt()),
                    O("Condition", lhs=O("Column", name="project_id"), op=E("Op.IN"), rhs=U([1, 2])),
                    O("Condition", lhs=O("Column", name="org_id"), op=E("Op.EQ"), rhs=1),
                ]
        if self.p(0.2):
            a["having"] = LL(self.several(lambda: self.cond(ctx), 1, 2))
        if self.p(0.35):
            a["orderby"] = LL(self.several(lambda: O("OrderBy", exp=self.column(ctx) if self.p(0.5) else self.function(ctx, 2), direction=E(self.ch(["Direction.ASC", "Direction.DESC"]))), 1, 2))
        if self.p(0.2):
            a["limitby"] = O("LimitBy", columns=LL(self.several(lambda: self.column(ctx), 1, 4)), count=self.n(1, 100))
        if self.p(0.5):
            a["limit"] = O("Limit", limit=self.ch([1, 10, 100, 10000]))
        if self.p(0.4):
            a["offset"] = O("Offset", offset=self.ch([0, 1, 10]))
        if self.p(0.25):
            a["granularity"] = O("Granularity", granularity=self.ch([1, 60, 3600]))
        if self.p(0.2) and "groupby" in a:
            a["totals"] = O("Totals", totals=self.ch([True, False]))
        return O("Query", **a)

    def delete(self):
        pairs = []
        for c in self.r.sample(["project_id", "group_id", "id", "status"], self.n(1, 3)):
            pairs.append([c, LL(self.several(lambda: self.ch([1, 2, 3, "a", "b", "c'd"]), 1, 3))])
        if self.p(0.08):
            pairs.append(["empty", LL([])])
        if self.p(0.05):
            pairs = []
        return O("DeleteQuery", storage_name=self.ch(["search_issues", "errors"]), column_conditions=D(pairs))

    def flags(self):
        a = {}
        for f in ("totals", "consistent", "turbo", "debug", "dry_run", "legacy"):
            if self.p(0.3):
                a[f] = self.ch([True, False])
        if self.p(0.04):
            a["debug"] = "yes"
        return O("Flags", **a)

    def request(self, q):
        a = {"dataset": self.ch(["events", "discover", "generic_metrics"]), "app_id": self.ch(["app", "my.app", "x-1"]), "query": q}
        if self.p(0.7):
            a["flags"] = self.flags()
        if self.p(0.6):
            a["tenant_ids"] = D([["referrer", self.ch(["r1", "r2", "it's"])], ["organization_id", self.n(1, 3)]])
        if self.p(0.3):
            a["parent_api"] = self.ch(["/api/x", "<unknown>"])
        if self.p(0.03):
            a["app_id"] = ""
        return O("Request", **a)

    # -- metrics -------------------------------------------------------
    MRIS = ["d:transactions/duration@millisecond", "c:custom/foo@none", "d:custom/sentry.event_manager.save@second", "g:spans/x-y_z@none"]
    PUBS = ["transaction.duration", "foo", "a.b_c"]

    def metric(self):
        a = {}
        if self.p(0.7):
            a["mri"] = self.ch(self.MRIS)
        if not a or self.p(0.4):
            a["public_name"] = self.ch(self.PUBS)
        if self.p(0.15):
            a["id"] = self.n(1, 5)
        return O("Metric", **a)

    def mcond(self, d=0):
        x = self.r.random()
        col = lambda: O("Column", name=self.ch(["environment", "release", "tags[x]", "status_code", "a.b"]))
        if d < 2 and x < 0.2:
            return self.boolean(self.ch(["And", "Or"]), self.several(lambda: self.mcond(d + 1), 2, 3))
        if d < 2 and x < 0.45:
            c = col()
            cs = [O("Condition", lhs=copy.deepcopy(c) if self.p(0.93) else col(), op=E("Op.EQ"), rhs=self.mval()) for _ in range(self.n(2, 3))]
            return self.boolean("Or", cs)
        op = self.ch(["EQ", "NEQ", "IN", "NOT_IN", "LIKE", "NOT_LIKE"])
        if self.p(0.05):
            return O("Condition", lhs=col(), op=E(self.ch(["Op.EQ", "Op.NEQ", "Op.GT"])), rhs=col())
        if self.p(0.03):
            return O("Condition", lhs=col(), op=E(self.ch(["Op.IS_NULL", "Op.IS_NOT_NULL"])))
        if op in ("IN", "NOT_IN"):
            vs = self.several(self.mval, 1, 3)
            rhs = LL(vs) if self.p(0.6) else U(vs)
        else:
            rhs = self.mval()
            if self.faults and self.p(0.1):
                rhs = O("Function", function="now", parameters=LL([]))
        return O("Condition", lhs=col(), op=E("Op." + op), rhs=rhs)

    def mval(self):
        if self.faults and self.p(0.1):
            return {"T": "bytes", "v": "ff"}
        return self.ch(STRS + [1, True, 1.0, 0, "prod", "Prod", "dev"])

    def mgroup(self):
        return LL(self.several(lambda: O("Column", name=self.ch(["environment", "release", "a.b"])) if self.p(0.8) else O("AliasedExpression", exp=O("Column", name="release"), alias="rel"), 1, 2))

    def timeseries(self, groupby=None):
        a = {"metric": self.metric(), "aggregate": self.ch(["sum", "count", "avg", "quantiles", "max"])}
        if a["aggregate"] == "quantiles" or self.p(0.15):
            a["aggregate_params"] = LL([self.ch([0.5, 0.95, 1, 1.0, True, "x", "p'\"q"])])
        if self.p(0.6):
            a["filters"] = LL(self.several(self.mcond, 0 if self.p(0.1) else 1, 2))
        if groupby is not None:
            a["groupby"] = copy.deepcopy(groupby)
        elif self.p(0.3):
            a["groupby"] = self.mgroup()
        return O("Timeseries", **a)

    def formula(self, d=0, g=None):
        if g is None:
            g = self.mgroup() if self.p(0.3) else LL([])
        sub = lambda: self.timeseries(g if g["v"] else None) if not g["v"] else self.timeseries(g)

        def par():
            x = self.r.random()
            if x < 0.55 or d >= 3:
                t = self.timeseries(g if g["v"] else LL([]))
                if not g["v"]:
                    t["a"].pop("groupby", None)
                return t
            if x < 0.75:
                return self.formula(d + 1, g)
            return self.ch([1, 1.0, 100, 0.5, True])

        fn = self.ch(["plus", "minus", "multiply", "divide", "negate", "apdex", "topK", "failure_rate"])
        n = 1 if fn == "negate" else 2
        ps = [par() for _ in range(n)]
        if not any(p["T"] in ("Timeseries", "Formula") for p in ps if isinstance(p, dict)):
            t = self.timeseries(g if g["v"] else LL([]))
            if not g["v"]:
                t["a"].pop("groupby", None)
            ps[0] = t
        a = {"function_name": fn, "parameters": LL(ps)}
        if fn == "topK" and self.p(0.7):
            a["aggregate_params"] = LL([self.ch([10, "x", 1.0])])
        if self.p(0.3):
            a["filters"] = LL(self.several(self.mcond, 1, 2))
        if g["v"] and self.p(0.5):
            a["groupby"] = copy.deepcopy(g)
        return O("Formula", **a)

    def mql_value(self):
        x = self.r.random()
        if x < 0.5:
            return '"%s"' % self.ch(["prod", "Prod", "a b", "a  b", " a b", "a\tb", 'q\\"x', "v1.2", "it's", "日本", "", "e\u0301", "\u00e9"])
        if x < 0.7:
            return self.ch(["prod", "dev", "v1.2", "AND1", "200"])
        if x < 0.8:
            return self.ch(["pre*", '"pre*"'])
        return "[%s]" % ", ".join(self.several(lambda: self.ch(['"a"', '"b"', "c", '"d e"']), 1, 3))

    def mql_filter(self, d=0):
        def factor():
            if d < 2 and self.p(0.2):
                return "(%s)" % self.mql_filter(d + 1)
            return "%s%s:%s%s" % ("!" if self.p(0.25) else "", self.ch(["env", "release", "a.b", "http_x"]), self.ch(["", " "]), self.mql_value())

        s = factor()
        for _ in range(self.ch([0, 0, 1, 1, 2])):
            s += self.ch([" AND ", " and ", ", ", " ", " OR ", " or "]) + factor()
        return s

    def mql_ts(self):
        m = self.ch(["`%s`" % self.ch(self.MRIS), "`%s`" % self.ch(self.MRIS), self.ch(self.PUBS), self.ch(["c:custom/foo@none"]), "`%s`" % self.ch(self.PUBS)])
        f = "{%s}" % self.mql_filter() if self.p(0.5) else ("{}" if self.p(0.1) else "")
        agg = self.ch(["sum", "count", "Sum", "avg"]) if self.p(0.8) else "quantiles(%s)" % self.ch(["0.5", "0.5, 0.95", '"x"', "y", "", ""])
        by = self.ch([" by env", " by (env, release)", " by (release)"]) if self.p(0.3) else ""
        x = self.r.random()
        if x < 0.12:
            return "%s(%s%s by env)%s" % (agg, m, f, self.ch(["", by]))
        if x < 0.18:
            return "%s((%s(%s%s)%s))" % (self.ch(["sum", "max", "topK(3)"]), agg, m, f, by)
        if x < 0.22:
            return "%s( %s%s )%s%s" % (agg, m, f, "{%s}" % self.mql_filter(), by)
        if x < 0.55:
            return "%s(%s%s)%s" % (agg, m, f, by)
        return "%s(%s)%s%s" % (agg, m, f, by)

    def mql(self, d=0):
        x = self.r.random()
        if d >= 3 or x < 0.5:
            s = self.mql_ts()
        elif x < 0.8:
            b = lambda: self.mql(d + 1) if self.p(0.75) else self.ch(["1", "2.5", "100", "-1", "-2.5", "(3)", '"s"'])
            s = "(%s %s %s)" % (self.mql(d + 1), self.ch("+-*/"), b())
            if self.p(0.3):
                s += "{%s}" % self.mql_filter()
            if self.p(0.2):
                s += " by (env)"
        elif x < 0.87:
            s = "-" + self.ch([self.mql_ts(), self.mql(d + 1)])
        elif x < 0.9:
            s = "apdex(%s, 300)" % self.mql(d + 1)
        elif x < 0.94:
            s = "%s(%s, %s, %s)%s" % (self.ch(["f", "histogram(3)", "g()"]), self.mql(d + 1), self.ch(['"z"', "7", "-7"]), self.mql_ts(), self.ch(["", " by env", "{env:x}"]))
        else:
            s = "topK(%s)(%s)" % (self.ch(["10", "10", ""]), self.mql(d + 1))
        if d == 0:
            if self.p(0.06):
                s = self.ch([s[:-1], s + " +", "$" + s, s + "}", "1 + 2", '"x"', '-"x"', s.replace("(", "{", 1), "", "$v", "sum($v)", "sum(foo{$k:x})", "sum(foo{env:$k})", "apdex(foo, 3)", "f(3)(foo)", "foo", "foo{env:x}"])
            if self.p(0.15):
                s = "  " + s + "\n"
        return s

    def rollup(self):
        x = self.r.random()
        g = self.ch([10, 60, 3600])
        if x < 0.6:
            a = {"interval": g * self.n(1, 3), "granularity": g}
            if self.p(0.4):
                a["totals"] = self.ch([True, False])
        else:
            a = {"totals": True, "granularity": g}
            if self.p(0.5):
                a["orderby"] = E(self.ch(["Direction.ASC", "Direction.DESC"]))
        if self.p(0.04):
            a.pop("granularity")
        return O("Rollup", **a)

    def scope(self):
        a = {"org_ids": LL(self.several(lambda: self.n(1, 5), 1, 2)), "project_ids": LL(self.several(lambda: self.n(1, 50), 1, 3))}
        if self.p(0.7):
            a["use_case_id"] = self.ch(["transactions", "custom", "spans"])
        return O("MetricsScope", **a)

    def metrics_query(self):
        x = self.r.random()
        q = self.timeseries() if x < 0.45 else self.formula() if x < 0.7 else self.mql()
        dt = lambda: {"T": "dt", "v": [2023, self.n(1, 12), self.n(1, 28), self.n(0, 23), 0, 0], "tz": self.ch([None, None, 0, 120])}
        a = {"query": q, "start": dt(), "end": dt(), "rollup": self.rollup(), "scope": self.scope(), "indexer_mappings": D([[self.ch(["a", "b"]), self.n(1, 9)]] if self.p(0.5) else [])}
        if self.p(0.5):
            a["limit"] = O("Limit", limit=self.ch([1, 10, 100]))
        if self.p(0.4):
            a["offset"] = O("Offset", offset=self.ch([0, 1, 5]))
        if self.p(0.25):
            a["extrapolate"] = O("Extrapolate", extrapolate=self.ch([True, False]))
        if self.p(0.05):
            a.pop(self.ch(["query", "start", "end", "rollup", "scope", "indexer_mappings"]))
        return O("MetricsQuery", **a)

    # -- legacy --------------------------------------------------------
    def lexp(self, d=0):
        x = self.r.random()
        if x < 0.5 or d > 2:
            return self.ch(COLS[:9] + ["'lit'", "'it''s'", "''"])
        if x < 0.6:
            return self.ch([1, 2.5, None]) if d else self.ch(COLS[:6])
        if x < 0.67:
            # a condition as an argument
            return LL([self.ch(COLS[:9]), self.ch(["=", "!=", ">", "IN"]), self.ch([1, "a", "2021-03-04T05:06:07", LL(["'p'", 2])])])
        if x < 0.71:
            return LL([self.ch(["count()", "now()", "uniq"]), self.ch([None, "", LL([])])] + (["zl"] if self.p(0.5) else []))
        args = self.several(lambda: self.lexp(d + 1), 1, 2)
        if len(args) == 1 and self.p(0.3) and isinstance(args[0], str):
            return LL([self.ch(FUNCS), args[0]])
        return LL([self.ch(FUNCS), LL(args)] + ([self.ch(["al", "`bl`", "cl"])] if self.p(0.4) else []))

    def lcond(self):
        op = self.ch(["=", "!=", ">", ">=", "<", "IN", "NOT IN", "LIKE", "IS NULL", "IS NOT NULL"])
        lhs = self.ch(COLS[:9] + ["release", "tags[x]"]) if self.p(0.7) else LL([self.ch(["ifNull", "coalesce"]), LL([self.ch(["tags[x]", "release", "title"]), "''"])])
        if op in ("IN", "NOT IN"):
            rhs = LL(self.several(lambda: self.ch([1, 2, "a", "b", "2021-01-01T00:00:00", "2021-01-01T00:00:00.25", self.dt()]), 1, 3))
            if self.p(0.1):
                rhs["v"].append(LL(["x", U([1, "y"])]))
            if self.p(0.3):
                rhs["T"] = "tuple"
        elif "NULL" in op:
            rhs = None
        else:
            rhs = self.ch([1, 0.5, "a", "it's", "2021-03-04T05:06:07", "2021-03-04T05:06:07+00:00", "2021-03-04T05:06:07.123456", "2021-03-04T05:06:07-03:30", "2021-03-04T05:06:07+05:45", "2021-03-04", "a+b", True, self.dt()])
        return (LL if self.p(0.7) else U)([lhs, op, rhs])

    def legacy(self):
        p = []
        fn = lambda: LL([self.ch(FUNCS), LL(self.several(lambda: self.lexp(1), 1, 2))] + ([self.ch(["al", "`bl`", "cl"])] if self.p(0.4) else []))
        sel = self.several(lambda: self.ch(COLS[:9]) if self.p(0.5) else self.lexp() if self.p(0.03) else fn(), 1, 3)
        p.append(["selected_columns", LL(sel)])
        if self.p(0.5):
            def agg():
                x = self.r.random()
                v = ["count()", "", "cnt"] if x < 0.3 else ["uniq", self.ch(COLS[:5]), "uq"] if x < 0.6 else ["count", None, "c"] if x < 0.8 else ["topK(3)", LL([self.ch(COLS[:5])]), "top"]
                return (LL if self.p(0.7) else U)(v)
            p.append(["aggregations", LL(self.several(agg, 1, 2))])
        if self.p(0.4):
            g = self.several(lambda: self.ch(COLS[:9]) if self.p(0.7) else fn(), 1, 2)
            p.append(["groupby", LL(g) if self.p(0.8) else self.ch(COLS[:4])])
        if self.p(0.7):
            cs = []
            for _ in range(self.n(1, 3)):
                cs.append(self.lcond() if self.p(0.7) else LL(self.several(self.lcond, 1, 3)))
            p.append(["conditions", LL(cs)])
        if self.p(0.25):
            p.append(["having", LL([self.lcond() if self.p(0.6) else LL(self.several(self.lcond, 2, 3))])])
        if self.p(0.75):
            def ob():
                x = self.r.random()
                if x < 0.3:
                    return self.ch(["-", ""]) + self.ch(COLS[:5])
                return LL([self.ch(["-", "", "-"]) + self.ch(["count", "uniq", "max"]), LL(self.several(lambda: self.ch(COLS[:5]), 0, 2))] + ([self.ch(["o1", "o2"])] if self.p(0.5) else []))
            o = self.several(ob, 1, 3)
            p.append(["orderby", LL(o) if self.p(0.85) else "-" + COLS[0]])
        if self.p(0.2):
            p.append(["limitby", LL([self.n(1, 9), self.ch(COLS[:4])])])
        if self.p(0.2):
            p.append(["arrayjoin", self.ch(COLS[:4])])
        for k, v in (("limit", self.n(1, 100)), ("offset", self.n(0, 9)), ("granularity", 3600), ("totals", self.ch([True, False]))):
            if self.p(0.3):
                p.append([k, v])
        if self.p(0.5):
            p.append(["from_date", self.ch(["2021-01-01T00:00:00", "2021-01-01T00:00:00.5", "2021-01-01T00:00:00+00:00"])])
            p.append(["to_date", "2021-02-01T00:00:00"])
        if self.p(0.5):
            p.append(["project", self.ch([1, LL([1, 2]), U([3])])])
        if self.p(0.3):
            p.append(["organization", self.ch([7, LL([7, 8])])])
        if self.p(0.2):
            p.append(["sample", self.ch([0.1, 1, 10])])
        for k in ("consistent", "turbo", "debug", "dry_run"):
            if self.p(0.2):
                p.append([k, True])
        if self.p(0.4):
            p.append(["tenant_ids", D([["referrer", "r"], ["organization_id", 1]])])
        if self.p(0.4):
            p.append(["dataset", self.ch(["events", "discover"])])
        if self.p(0.2):
            p.append(["app_id", self.ch(["app", "other", ""])])
        if self.p(0.15):
            p.append([self.ch(["referrer", "parent_api", "team"]), LL(["x", D([["y", 1]])])])
        if self.p(0.1):
            p = [[k, dict(v, T="tuple") if isinstance(v, dict) and v.get("T") == "list" and k != "orderby" else v] for k, v in p]
        if self.p(0.2):
            self.r.shuffle(p)
        if self.p(0.03):
            p.append(["conditions", LL([LL(["x y", "=", 1])])])
        return D(p)

    # -- operations ----------------------------------------------------
    def op_snql(self):
        x = self.r.random()
        if x < 0.56:
            return {"k": "call", "o": self.query(), "m": self.ch(["validate", "serialize", "serialize", "serialize", "str", "print"])}
        if x < 0.72:
            q = self.query() if self.p(0.8) else self.delete()
            return {"k": "call", "o": self.request(q), "m": self.ch(["validate", "to_dict", "serialize", "print", "str"])}
        if x < 0.76:
            return {"k": "call", "o": self.delete(), "m": self.ch(["validate", "serialize", "print"])}
        if x < 0.85:
            ctx = {"names": COLS}
            o = self.ch([self.function, self.cond, self.selectable, self.condition])(ctx)
            if self.p(0.12):
                m = self.query()["a"]
                o = self.ch([m["match"], m.get("limitby"), (m.get("orderby") or {"v": [None]})["v"][0]]) or o
                if o["T"] == "Query":
                    o = o["a"]["select"]["v"][0]
                return {"k": "find", "o": o, "t": self.ch(["Entity", "Storage", "Join", "Relationship", "Column", "OrderBy", "LimitBy", "Function"])} if self.p(0.5) else {"k": "tr", "o": o}
            if self.p(0.3):
                return {"k": "find", "o": o, "t": self.ch(["Column", "Function", "CurriedFunction", "Condition", "BooleanCondition", "Lambda", "Identifier", "AliasedExpression"])}
            return {"k": "tr", "o": o}
        if x < 0.89:
            return {"k": "search", "o": self.query(), "t": "Column"}
        if x < 0.96:
            q = self.query(kind=self.ch(["entity", "entity", "join", "sub"]))
            if q["a"]["match"]["T"] == "Entity" and "data_model" not in q["a"]["match"]["a"] and self.p(0.6):
                q["a"]["match"]["a"]["data_model"] = self.data_model(COLS + ["timestamp", "project_id", "org_id"])
            if self.p(0.5) and "where" in q["a"] and q["a"]["where"]["v"]:
                w = q["a"]["where"]["v"]
                k = self.n(1, len(w))
                cs = copy.deepcopy(w[:k])
                if len(cs) < 2:
                    cs.append(copy.deepcopy(cs[0]))
                w[:k] = [self.boolean("And", cs)]
            return {"k": "required", "o": q}
        ctx = {"names": COLS}
        cs = self.several(lambda: self.cond(ctx), 1, 3)
        for _ in range(self.n(0, 2)):
            cs.insert(0 if self.p(0.6) else self.n(0, len(cs)), self.boolean("And", self.several(lambda: self.cond(ctx, 2), 2, 3)))
        return {"k": "first", "o": LL(cs)}

    def op_mql(self):
        x = self.r.random()
        if x < 0.35:
            return {"k": "parse", "s": self.mql()}
        if x < 0.8:
            return {"k": "call", "o": self.metrics_query(), "m": self.ch(["validate", "serialize", "serialize", "str", "print", "print"])}
        if x < 0.97:
            return {"k": "call", "o": self.request(self.metrics_query()), "m": self.ch(["validate", "to_dict", "serialize", "print", "serialize_mql"])}
        return {"k": "tr", "o": self.scalar(), "mql": True}

    def op_legacy(self):
        return {"k": "legacy", "o": self.legacy(), "e": self.ch(ENTS + ["unknown_entity"])}

    def op(self, mix):
        k = self.ch(mix)
        self.big = self.p(0.1)
        return getattr(self, "op_" + k)()

    # -- near-identical variants ---------------------------------------
    def leaves(self, x, path=()):
        out = []
        if isinstance(x, dict):
            t = x.get("T")
            if t in ("dt", "date", "bytes", "enum"):
                return [(path, t)]
            if t in ("list", "tuple", "seq"):
                out.append((path, "listy"))
            if "a" in x:
                if len(x["a"]) > 1:
                    out.append((path, "obj"))
                for k in x["a"]:
                    out += self.leaves(x["a"][k], path + ("a", k))
            elif "v" in x:
                out += self.leaves(x["v"], path + ("v",))
            elif t is None:
                for k in x:
                    if k in ("o", "s", "y"):
                        out += self.leaves(x[k], path + (k,))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                out += self.leaves(v, path + (i,))
        else:
            out.append((path, "leaf"))
        return out

    def mutate(self, op):
        op = copy.deepcopy(op)
        r = self.r
        if op["k"] == "call" and self.p(0.12):
            ms = {"validate", "serialize", "str", "print"}
            op["m"] = self.ch(sorted(ms - {op["m"]}))
            return op
        if op["k"] == "parse" and self.p(0.7):
            op["s"] = self.mut_text(op["s"])
            return op
        if isinstance(op.get("o"), dict) and self.p(0.2):
            op["o"] = self.eqvar(op["o"])
            return op
        if isinstance(op.get("o"), dict) and self.p(0.05):
            self.junk(op["o"])
            return op
        lv = self.leaves(op)
        if not lv:
            return op
        path, kind = lv[r.randrange(len(lv))]
        par = op
        for k in path[:-1]:
            par = par[k]
        key = path[-1]
        v = par[key]
        par[key] = self.mut_value(v, kind, key)
        return op

    def junk(self, o):
        """Put something of the wrong kind somewhere."""
        slots = []

        def walk(x):
            if isinstance(x, dict):
                if "a" in x:
                    for k in sorted(x["a"]):
                        slots.append((x["a"], k))
                        walk(x["a"][k])
                elif x.get("T") in ("list", "tuple"):
                    for k, v in enumerate(x["v"]):
                        slots.append((x["v"], k))
                        walk(v)
                elif x.get("T") == "dict" and body:
                    for kv in x["v"]:
                        slots.append((kv, 1))
                        if kv[0] != "tenant_ids":
                            walk(kv[1])

        # mappings other than legacy bodies hold plain values by declaration
        body = o.get("T") == "dict"
        walk(o)
        if slots:
            par, k = self.ch(slots)
            par[k] = copy.deepcopy(self.ch([
                None, 5, -1, "x y", "", True, 1.5, LL([]), U([]), LL([1, "a"]), D([["a", 1]]), {"T": "bytes", "v": "6162"},
                O("Entity", name="events"), O("Column", name="a"), E("Op.EQ"), self.dt(), LL([LL([LL([1])])]), O("Function", function="f", parameters=LL([])),
            ]))

    def mut_text(self, s):
        r = self.r
        x = r.random()
        if not s:
            return "a"
        if x < 0.3:
            i = r.randrange(len(s))
            return s[:i] + s[i].swapcase() + s[i + 1 :]
        if x < 0.5:
            sp = [i for i, c in enumerate(s) if c in " \t\n"]
            if not sp or r.random() < 0.15:
                return r.choice([s + " ", " " + s, s + "\n"])
            i = r.choice(sp)
            return s[:i] + r.choice(["  ", " ", "\t", "\n", "", "   "]) + s[i + 1 :]
        if x < 0.7:
            for a, b in (("AND", "OR"), ("sum", "avg"), ("+", "-"), ("env", "release"), ("0.5", "0.95"), ('"a"', '"b"')):
                if a in s and r.random() < 0.6:
                    return s.replace(a, b, 1)
            return s + " "
        i = r.randrange(len(s))
        return s[:i] + r.choice(["a", "b", "_", "1"]) + s[i:]

    def mut_value(self, v, kind, key):
        r = self.r
        if kind == "listy":
            v = dict(v)
            vs = list(v["v"])
            x = r.random()
            if x < 0.35 and v["T"] in ("list", "tuple"):
                v["T"] = "tuple" if v["T"] == "list" else "list"
            elif x < 0.6 and len(vs) > 1:
                vs.reverse()
            elif x < 0.8 and vs:
                vs.append(copy.deepcopy(vs[-1]))
            elif vs:
                vs.pop()
            v["v"] = vs
            return v
        if kind == "obj":
            a = dict(v["a"])
            k = r.choice(sorted(a))
            if k not in ("name", "function", "lhs", "match", "metric", "query"):
                a.pop(k)
            return {"T": v["T"], "a": a}
        if kind == "dt":
            v = copy.deepcopy(v)
            if v.get("tz") == "dst" and r.random() < 0.7:
                v["fold"] = 1 - v["fold"]
            elif r.random() < 0.5:
                v["v"][-1] = (v["v"][-1] + 1) % 60
            else:
                v["tz"] = r.choice([None, 0, 60, -60])
            return v
        if kind == "date":
            return {"T": "dt", "v": v["v"] + [0, 0, 0], "tz": None}
        if kind == "bytes":
            return bytes.fromhex(v["v"]).decode("utf8", "replace")
        if kind == "enum":
            c, m = v["v"].split(".")
            alt = {"Op": ["EQ", "NEQ", "IN", "LIKE", "GT"], "Direction": ["ASC", "DESC"], "BooleanOp": ["AND", "OR"]}[c]
            return E(c + "." + r.choice([x for x in alt if x != m] or [m]))
        if v is None:
            return r.choice([0, "", False])
        if isinstance(v, bool):
            return r.choice([int(v), float(v), not v])
        if isinstance(v, int):
            if v in (0, 1):
                return r.choice([bool(v), float(v), v + 1])
            return r.choice([v + 1, float(v) if abs(v) < 2**53 else v - 1, str(v)])
        if isinstance(v, float) and (v == 0.0 or v in (float("inf"), float("-inf"))):
            return r.choice([-v, -v, v + 0.25])
        if isinstance(v, float):
            return r.choice([v + 0.25, int(v) if v == int(v) and abs(v) < 1e15 else v * 2])
        if key == "s":
            return self.mut_text(v)
        x = r.random()
        if x < 0.3:
            return v.swapcase()
        if x < 0.5:
            return v + r.choice(["x", "_1", "'", '"', "\\", " "])
        if x < 0.65:
            return r.choice(["a", "b", "title", "count", "timestamp"])
        if x < 0.75:
            return v.replace(" ", "  ", 1) if " " in v else " " + v if r.random() < 0.5 else v + "\n"
        if x < 0.85:
            return r.choice([v.upper(), v.lower(), v.title(), v.casefold(), unicodedata.normalize("NFD", v), unicodedata.normalize("NFC", v)])
        return v[:-1]

    def eqvar(self, spec):
        """A copy that compares equal in Python here and there, but is not the same."""
        spec = copy.deepcopy(spec)
        spots = []

        def go(par, key):
            x = par[key]
            if isinstance(x, dict):
                if x.get("tz") == "dst":
                    spots.append((x, "fold"))
                if "a" in x:
                    if x["T"] in ("Function", "CurriedFunction"):
                        spots.append((x, "fn"))
                    for k in x["a"]:
                        go(x["a"], k)
                elif "v" in x and x["T"] in ("list", "tuple", "dict"):
                    if x["T"] != "dict":
                        spots.append(((par, key), "seq"))
                    for i in range(len(x["v"])):
                        go(x["v"], i)
            elif isinstance(x, list):
                for i in range(len(x)):
                    go(x, i)
            elif isinstance(x, (bool, int, float)) and abs(x) != float("inf"):
                spots.append(((par, key), "num"))

        box = [spec]
        go(box, 0)
        if not spots:
            return box[0]
        for _ in range(self.ch([1, 1, 2])):
            where, kind = self.ch(spots)
            if kind == "fold":
                where["fold"] = 1 - where["fold"]
            elif kind == "fn":
                if self.p(0.3) and "alias" in where["a"]:
                    del where["a"]["alias"]
                else:
                    where["a"]["alias"] = self.ch(ALIASES)
            else:
                par, key = where
                x = par[key]
                if kind == "seq" and isinstance(x, dict):
                    x["T"] = "tuple" if x["T"] == "list" else "list"
                elif kind == "num":
                    c = [float(x)] if abs(x) < 2**53 else [x]
                    if x == int(x):
                        c.append(int(x))
                    if x in (0, 1):
                        c.append(bool(x))
                    c = [y for y in c if type(y) is not type(x)] or [x]
                    if type(x) is float and x == 0.0 and self.p(0.6):
                        c = [-x]
                    par[key] = self.ch(c)
        return box[0]

    def family(self, mix, n=4, want=None):
        base = self.op(mix)
        for _ in range(60):
            if want is None or want(base):
                break
            base = self.op(mix)
        fam = [base]
        for _ in range(n):
            src = base if self.p(0.7) else fam[self.r.randrange(len(fam))]
            fam.append(self.mutate(src))
        return fam


def key(op):
    return json.dumps(op, sort_keys=True)
