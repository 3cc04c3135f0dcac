"""Hypothesis strategies for schemas and histories (see schema.py for the specs)."""
from hypothesis import strategies as st

NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Epsilon"]
# names that are parts of each other
NESTED = ["Al", "Alpha", "Alp", "Ha", "Pha"]

TEXTS = ["", "a", "b", "A", "a ", "á", "o'c", "%s", '"q"', "\\", "日本", "x\ny", "\U0001f600", "1", "true"]
LONG = ["x" * 255 + "a", "x" * 255 + "b", "x" * 4000 + "a", "x" * 4000 + "b"]
DOMAIN = {
    "int": [0, 1, 2, -1, 7, 10, 1000000, 2147483647, -2147483648],
    "small": [0, 1, -1, 32767, -32768],
    "pint": [0, 1, 2, 7, 10, 50000],
    "big": [0, 1, 2, -1, 9000000000, 9000000001, 9223372036854775807, 9223372036854775806, -9223372036854775808],
    "text": TEXTS + LONG,
    "char": [t for t in TEXTS],
    "dec": ["0.00", "0.10", "0.11", "1.00", "-1.00", "99999.99"],
    "date": ["2000-01-01", "2000-01-02", "1999-12-31", "2038-01-20", "9999-12-31"],
    "dt": ["2000-01-01 00:00:00.000000", "2000-01-01 00:00:00.000001", "2000-01-01 00:00:01.000000",
           "2000-01-02 00:00:00.000000", "2038-01-20 00:00:00.000000"],
    "time": ["00:00:00.000000", "00:00:00.000001", "00:00:01.000000", "12:00:00.000000", "23:59:59.999999"],
    "dur": [0, 1, -1, 1000000, 86400000000, 86400000001],
    "float": [0.0, 0.5, -0.5, 1.0, 1e10, 0.1, 0.3, 0.30000000000000004, 16777216.0, 16777217.0, 1e300, 1e-300],
    "uuid": ["00000000-0000-0000-0000-000000000000", "00000000-0000-0000-0000-000000000001",
             "ffffffff-ffff-ffff-ffff-ffffffffffff"],
    "ip": ["127.0.0.1", "127.0.0.2", "::1", "2001:db8::1"],
    "bin": ["", "a", "A", "b", "a\u0000", "a\u0000b", "a\u0000c", "a "],
    "bool": [False, True],
    "point": ["0 0", "0 1", "1 0"],
    "json": [{}, {"a": 1}, {"a": "1"}, {"a": None}, [1, 2], [2, 1], "a", 1, True],
    "arr": [[], [1], [1, 2], [2, 1], [None], [1, None]],
}
# pairs that a careless comparison takes for equal
NEAR = {
    "int": [(0, None), (1, -1), (2147483647, -2147483648)],
    "small": [(0, None), (1, -1)],
    "pint": [(0, None), (1, 10)],
    "big": [(9223372036854775807, 9223372036854775806), (9000000000, 9000000001), (0, None)],
    "text": [(LONG[0], LONG[1]), (LONG[2], LONG[3]), ("", None), ("a", "A"), ("a", "a "), ("a", "á"), ("1", "true")],
    "char": [("", None), ("a", "A"), ("a", "a "), ("a", "á")],
    "dec": [("0.10", "0.11"), ("1.00", "-1.00"), ("0.00", None)],
    "date": [("2000-01-01", "2000-01-02"), ("2000-01-01", None)],
    "dt": [("2000-01-01 00:00:00.000000", "2000-01-01 00:00:00.000001"),
           ("2000-01-01 00:00:00.000000", "2000-01-02 00:00:00.000000")],
    "time": [("00:00:00.000000", "00:00:00.000001"), ("00:00:00.000000", "12:00:00.000000"), ("00:00:00.000000", None)],
    "dur": [(0, 1), (1, -1), (86400000000, 86400000001), (0, None)],
    "float": [(0.3, 0.30000000000000004), (16777216.0, 16777217.0), (0.0, 1e-300), (0.0, None)],
    "ip": [("127.0.0.1", "127.0.0.2"), ("::1", None)],
    "bin": [("a\u0000b", "a\u0000c"), ("a", "a\u0000"), ("a", "A"), ("a", "a "), ("", None)],
    "bool": [(False, None), (False, True)],
    "json": [({"a": 1}, {"a": "1"}), ([1, 2], [2, 1]), ({}, {"a": None})],
    "arr": [([1, 2], [2, 1]), ([], [None]), ([1], [1, None])],
}
SIMPLE_KINDS = ["int", "text", "char", "bool"]
ALL_KINDS = ["int", "small", "pint", "big", "text", "char", "dec", "date", "dt", "time", "dur", "float", "uuid", "ip",
             "bin", "bool"]


def kinds_for(backend):
    return ALL_KINDS + {"postgres": ["json", "arr"], "postgis": ["json", "arr", "point"]}.get(backend, [])


def ints(a, b):
    return st.integers(a, b)


def pickf(draw, seq):
    return draw(st.sampled_from(list(seq)))


def flag(draw, one_in=2):
    """True once in `one_in`; shrinks to False."""
    return draw(st.integers(0, one_in - 1)) == one_in - 1


def value(draw, f):
    """A value of a column; None when it may be NULL, about once in four."""
    if f.get("null") and flag(draw, 4):
        return None
    return pickf(draw, DOMAIN[f["kind"]])


def near_update(draw, spec, mi):
    """Two writes of one column of one row, from a value to one that is almost the same."""
    fs = [f for f in spec["models"][mi]["fields"] if f["kind"] in NEAR]
    if not fs:
        return []
    f = pickf(draw, fs)
    pairs = [p for p in NEAR[f["kind"]] if f["null"] or None not in p]
    if not pairs:
        return []
    a, b = pickf(draw, pairs)
    if flag(draw, 2):
        a, b = b, a
    row = draw(ints(0, 3))
    return [["update", mi, row, pickf(draw, ["save", "qs", "raw"]), {f["name"]: a}, {}], ["flush"],
            ["update", mi, row, pickf(draw, ["qs", "raw"]), {f["name"]: b}, {}], ["flush"]]


# ---------------------------------------------------------------- schemas

class Builder(object):
    """Grows a spec; keeps names unique so that every relation is unambiguous by name."""

    def __init__(self, draw, backend):
        self.draw = draw
        self.backend = backend
        self.spec = {"models": []}
        self.n = 0
        self.nested = flag(draw, 2)
        self.names = NESTED if flag(draw, 3) else NAMES

    def fresh(self, prefix):
        self.n += 1
        if self.nested:
            # each name starts with all earlier ones
            return prefix + "".join(str(i % 10) for i in range(1, self.n + 1))
        return "%s%d" % (prefix, self.n)

    def model(self, kinds, nmin=1, nmax=2, pk="auto", **kw):
        m = {"name": self.names[len(self.spec["models"])], "table": None, "pk": pk, "fields": [], "rels": [], "denorms": []}
        m.update(kw)
        if nmax and flag(self.draw, 16):
            # a table with many columns
            nmin, nmax = 9, 20
        for _ in range(self.draw(ints(nmin, nmax))):
            k = pickf(self.draw, kinds)
            m["fields"].append({"name": self.fresh("f"), "kind": k, "null": flag(self.draw, 3), "column": None})
        self.spec["models"].append(m)
        return len(self.spec["models"]) - 1

    def __getitem__(self, mi):
        return self.spec["models"][mi]

    def rel(self, kind, owner, to, **kw):
        r = {"name": self.fresh("r"), "kind": kind, "to": to}
        if kind in ("fk", "o2o"):
            r["null"] = True if to >= owner else flag(self.draw, 2)
            if r["null"]:
                r["set_null"] = flag(self.draw, 2)
        r["rn"] = self.fresh("rev") if (flag(self.draw, 3) or self.needs_rn(owner, to, kind)) else None
        if kind == "gen":
            r["rn"] = None
        if kind == "m2m" and owner != to and flag(self.draw, 5):
            r["through"] = "Link%d" % self.n
        r.update(kw)
        self[owner]["rels"].append(r)
        return r

    def needs_rn(self, owner, to, kind):
        # a second relation between the same two models, or a self relation, clashes otherwise
        if owner == to:
            return any(r["to"] == to for r in self[owner]["rels"])
        return any(r["to"] == to for r in self[owner]["rels"])

    def relations(self, a, b):
        """All relation fields between two models, denormalised ones included."""
        out = []
        for x, y in ([(a, b), (b, a)] if a != b else [(a, a)]):
            for r in self[x]["rels"]:
                if r["to"] == y:
                    out.append((x, r["name"]))
            for d in self[x]["denorms"]:
                if d["kind"] in ("fk", "m2m") and d["to"] == y:
                    out.append((x, d["name"]))
        return out

    def dep(self, mi, owner, rel, direction, read):
        return {"owner": owner, "rel": rel["name"], "dir": direction, "read": read, "ref": None, "fk": None,
                "type": None}

    def deps_available(self, mi):
        """Every (owner, rel, direction) by which model mi can depend on another row."""
        out = []
        for oi, m in enumerate(self.spec["models"]):
            for r in m["rels"]:
                if oi == mi:
                    out.append((oi, r, "fwd"))
                if r["to"] == mi and (r["kind"] != "gen" or oi != mi):
                    out.append((oi, r, "bwd"))
        return out

    def readable(self, ti):
        m = self[ti]
        return [f["name"] for f in m["fields"] if f["kind"] != "auto_now"]

    def keys(self, ti):
        """Columns of model ti that point to other rows."""
        return [r["name"] + "_id" for r in self[ti]["rels"] if r["kind"] in ("fk", "o2o")]

    def reads(self, ti, extra=()):
        """A non-empty list of columns of model ti to read."""
        names = self.readable(ti) + list(extra) + self.keys(ti)
        if not names:
            return []
        k = self.draw(ints(1, min(3, len(names))))
        out = []
        for _ in range(k):
            x = pickf(self.draw, names)
            if x not in out:
                out.append(x)
        return out

    def text(self, mi, deps, own=None, **kw):
        names = self.readable(mi)
        if own is None:
            own = [n for n in names if flag(self.draw, 2)]
        d = {"kind": "text", "name": self.fresh("d"), "own": own, "deps": deps}
        d.update(kw)
        self[mi]["denorms"].append(d)
        return d

    def finish(self):
        """How each dependency refers to its model and relation, once all relations are known."""
        for mi, m in enumerate(self.spec["models"]):
            for d in m["denorms"]:
                for dep in d.get("deps", ()):
                    rel = [r for r in self[dep["owner"]]["rels"] if r["name"] == dep["rel"]][0]
                    ti = rel["to"] if dep["dir"] == "fwd" else dep["owner"]
                    amb = len(self.relations(mi, ti)) > 1
                    if amb or flag(self.draw, 3):
                        dep["fk"] = dep["rel"]
                    if ti == mi:
                        m2m = rel["kind"] in ("m2m", "gen")
                        dep["type"] = ("forward" if dep["dir"] == "fwd" else "backward") + ("_m2m" if m2m else "")
                        dep["ref"] = pickf(self.draw, ["self", "name", "label"])
                    else:
                        if flag(self.draw, 4):
                            m2m = rel["kind"] in ("m2m", "gen")
                            dep["type"] = ("forward" if dep["dir"] == "fwd" else "backward") + ("_m2m" if m2m else "")
                        dep["ref"] = pickf(self.draw, ["class", "name", "label"])
        if flag(self.draw, 12):
            self.spec["verbose"] = True
        return self.spec


def update_edges(spec):
    """(table, table) pairs: a statement on the first makes triggers update the second."""
    out = set()
    for mi, m in enumerate(spec["models"]):
        for d in m["denorms"]:
            if d["kind"] in ("count", "sum"):
                out.add((d["owner"], mi))
            elif d["kind"] in ("key", "cached"):
                for dep in d["deps"]:
                    rel = [r for r in spec["models"][dep["owner"]]["rels"] if r["name"] == dep["rel"]][0]
                    out.add((rel["to"] if dep["dir"] == "fwd" else dep["owner"], mi))
    return out


def acyclic(edges):
    nodes = {x for e in edges for x in e}
    edges = set(edges)
    while nodes:
        free = [n for n in nodes if not any(b == n for a, b in edges)]
        if not free:
            return False
        for n in free:
            nodes.discard(n)
        edges = {(a, b) for a, b in edges if a in nodes and b in nodes}
    return True


def volatile(m):
    """Saving a row of this model changes it every time."""
    return any(d["kind"] in ("key", "cached") for d in m["denorms"]) or any(f["kind"] == "auto_now" for f in m["fields"])


def settles(spec):
    """
    Does a flush come to an end, whatever the rows are?  Every save of a volatile row is a
    change, and changes of rows lead to saves of the rows depending on them.
    """
    edges = set()
    for mi, m in enumerate(spec["models"]):
        for d in m["denorms"]:
            if d["kind"] in ("count", "sum"):
                if d["owner"] != mi:
                    edges.add((d["owner"], mi))
                continue
            if d["kind"] in ("text", "fk", "m2m") and not volatile(m):
                continue
            for dep in d.get("deps", ()):
                rel = [r for r in spec["models"][dep["owner"]]["rels"] if r["name"] == dep["rel"]][0]
                edges.add((rel["to"] if dep["dir"] == "fwd" else dep["owner"], mi))
    return acyclic(edges)


def random_rels(b, draw, n, kinds=("fk", "o2o", "m2m"), self_ok=False):
    """n relations between random models; owner and target differ unless self_ok."""
    k = len(b.spec["models"])
    for _ in range(n):
        i = draw(ints(0, k - 1))
        j = draw(ints(0, k - 1))
        if i == j and not (self_ok and flag(draw, 2)):
            j = (i + 1) % k
        kind = pickf(draw, kinds)
        if i == j and kind == "o2o":
            kind = "fk"
        b.rel(kind, i, j)


def some(draw, low, high, most):
    """A number from low to high, now and then up to most."""
    return draw(ints(high + 1, most)) if flag(draw, 8) else draw(ints(low, high))


def mixed(draw, backend, kinds=None, features=("text", "text", "count", "sum", "key", "fk", "m2m"), nmodels=(2, 3),
          nfeatures=(1, 4), generic=True, self_ok=True, pks=("auto",), self_computed=False, generic_in=4):
    """A schema with several models, relations and denormalised fields of several kinds."""
    b = Builder(draw, backend)
    kinds = kinds or SIMPLE_KINDS + ["pint"]
    for _ in range(draw(ints(*nmodels))):
        b.model(kinds, 1, 2, pk=pickf(draw, pks))
    random_rels(b, draw, some(draw, 1, 3, 6), self_ok=self_ok)
    if generic and flag(draw, generic_in):
        ti = b.model(kinds, 1, 1, generic=True)
        owners = [i for i in range(ti) if b[i]["pk"] == "auto"]
        for oi in owners[:draw(ints(1, 2))]:
            r = b.rel("gen", oi, ti)
            if "text" in features and flag(draw, 2):
                b.text(oi, [b.dep(oi, oi, r, "fwd", b.reads(ti, ["pk"]))])
    add_features(b, draw, features, draw(ints(*nfeatures)), self_computed)
    if not any(d["kind"] in features for m in b.spec["models"] for d in m["denorms"]):
        b.text(0, [])
    return b


def add_features(b, draw, features, n, self_computed=False):
    texts = {}      # model -> names of text fields so far; a field only reads those declared before it
    keyed = set()
    for _ in range(n):
        kind = pickf(draw, features)
        mi = draw(ints(0, len(b.spec["models"]) - 1))
        m = b[mi]
        av = b.deps_available(mi)
        if kind == "text":
            deps = []
            for _ in range(some(draw, 0, 2, 6) if av else 0):
                oi, r, direction = av[draw(ints(0, len(av) - 1))]
                ti = r["to"] if direction == "fwd" else oi
                if any(x["rel"] == r["name"] and x["dir"] == direction for x in deps):
                    continue
                extra = texts.get(ti, []) + [d["name"] for d in b[ti]["denorms"] if d["kind"] in ("count", "sum")]
                if ti == mi and not self_computed:
                    # see the finding self-link
                    extra = []
                deps.append(b.dep(mi, oi, r, direction, b.reads(ti, extra + ["pk"])))
            own = [f for f in b.readable(mi) + texts.get(mi, []) if flag(draw, 2)]
            d = b.text(mi, deps, own=own)
            # an own computed column may be outdated in memory when the instance is saved,
            # so only columns of other rows read computed fields
            d["own"] = [x for x in d["own"] if x not in texts.get(mi, [])]
            while not settles(b.spec):
                d["deps"].pop()
            texts.setdefault(mi, []).append(d["name"])
        elif kind in ("count", "sum"):
            rels = [(oi, r) for oi, r, direction in av if direction == "bwd" and r["kind"] == "fk"
                    and not (oi == mi and b.backend == "mysql")]
            if not rels:
                continue
            oi, r = rels[draw(ints(0, len(rels) - 1))]
            d = {"kind": kind, "name": b.fresh("n"), "owner": oi, "rel": r["name"]}
            if kind == "sum":
                fs = [f["name"] for f in b[oi]["fields"] if f["kind"] == "pint"]
                if not fs:
                    d["kind"] = "count"
                else:
                    d["field"] = pickf(draw, fs)
            m["denorms"].append(d)
            if not acyclic(update_edges(b.spec) - {(mi, mi)}) or not settles(b.spec):
                m["denorms"].remove(d)
        elif kind == "key":
            d = {"kind": "key", "name": b.fresh("k"), "own": [], "deps": []}
            m["denorms"].append(d)
            if not settles(b.spec):
                m["denorms"].remove(d)
                continue
            for _ in range(some(draw, 0, 2, 6) if av else 0):
                oi, r, direction = av[draw(ints(0, len(av) - 1))]
                if any(x["rel"] == r["name"] and x["dir"] == direction for x in d["deps"]):
                    continue
                d["deps"].append(b.dep(mi, oi, r, direction, []))
                if not acyclic(update_edges(b.spec)) or not settles(b.spec):
                    d["deps"].pop()
        elif kind in ("fk", "m2m"):
            deps = [(oi, r, direction) for oi, r, direction in av if r["kind"] != "gen"]
            if not deps:
                continue
            oi, r, direction = deps[draw(ints(0, len(deps) - 1))]
            ti = r["to"] if direction == "fwd" else oi
            if ti == mi:
                continue
            d = {"kind": kind, "name": b.fresh("d"), "to": ti, "deps": [b.dep(mi, oi, r, direction, [])]}
            d["as_object" if kind == "fk" else "as_pk"] = flag(draw, 2)
            m["denorms"].append(d)
            if not settles(b.spec):
                m["denorms"].remove(d)


# ---------------------------------------------------------------- operations

CREATE_VIA = ["save", "create", "bulk", "raw"]
UPDATE_VIA = ["save", "qs", "raw", "update_fields", "select_related"]
DELETE_VIA = ["inst", "qs", "raw", "all"]


def some_values(draw, m, at_least=0):
    fs = [f for f in m["fields"] if f["kind"] != "auto_now"]
    vals = {}
    for f in fs:
        if flag(draw, 2):
            vals[f["name"]] = value(draw, f)
    if not vals and at_least and fs:
        f = pickf(draw, fs)
        vals[f["name"]] = value(draw, f)
    return vals


def some_rels(draw, m, likely=2):
    out = {}
    for r in m["rels"]:
        if r["kind"] in ("fk", "o2o") and flag(draw, likely):
            out[r["name"]] = None if r.get("null") and flag(draw, 3) else draw(ints(0, 3))
    return out


def all_rels(draw, m):
    return {r["name"]: (None if r.get("null") and flag(draw, 4) else draw(ints(0, 3)))
            for r in m["rels"] if r["kind"] in ("fk", "o2o")}


def create_op(draw, spec, mi, via=None):
    m = spec["models"][mi]
    vals = {f["name"]: value(draw, f) for f in m["fields"] if f["kind"] != "auto_now" and flag(draw, 2)}
    op = ["create", mi, via or pickf(draw, CREATE_VIA), vals, all_rels(draw, m)]
    if m.get("generic"):
        op.append([draw(ints(0, 1)), draw(ints(0, 2))])
    return op


def update_op(draw, spec, mi, vias=None):
    m = spec["models"][mi]
    rels = some_rels(draw, m)
    op = ["update", mi, draw(ints(0, 4)), pickf(draw, vias or UPDATE_VIA), some_values(draw, m, not rels), rels]
    if m.get("generic"):
        op.append([draw(ints(0, 1)), draw(ints(0, 2))] if flag(draw, 2) else None)
    return op


def one_op(draw, spec, weights, depth=0, txn_flush=True):
    kinds = [k for k, w in weights.items() for _ in range(w)]
    for _ in range(4):
        k = pickf(draw, kinds)
        mi = draw(ints(0, len(spec["models"]) - 1))
        m = spec["models"][mi]
        if k == "create":
            return create_op(draw, spec, mi)
        if k == "update":
            return update_op(draw, spec, mi)
        if k == "bulk":
            return ["bulk", mi, some_values(draw, m, 1), some_rels(draw, m, 2), draw(ints(0, 3)), draw(ints(1, 3))]
        if k == "bulkset":
            v = some_values(draw, m, 1)
            if v:
                return ["bulkset", mi, v]
        if k == "incr":
            fs = [f["name"] for f in m["fields"] if f["kind"] in ("int", "pint")]
            if fs:
                return ["incr", mi, pickf(draw, fs), draw(ints(1, 3))]
        if k == "touch":
            return ["touch", mi, draw(ints(0, 3)), pickf(draw, ["save", "qs"])]
        if k == "delete":
            return ["delete", mi, draw(ints(0, 4)), pickf(draw, DELETE_VIA)]
        if k == "m2m":
            ms = [(i, r) for i, mm in enumerate(spec["models"]) for r in mm["rels"] if r["kind"] == "m2m"]
            if ms:
                i, r = ms[draw(ints(0, len(ms) - 1))]
                side = "fwd" if r["to"] == i and not r.get("rn") else pickf(draw, ["fwd", "rev"])
                return ["m2m", i, r["name"], draw(ints(0, 3)),
                        pickf(draw, ["add", "add", "remove", "set", "clear", "rawadd", "rawdel", "shift"]),
                        draw(st.lists(ints(0, 3), min_size=1, max_size=2)), side]
        if k == "hold":
            return ["hold", draw(ints(0, 1)), mi, draw(ints(0, 3))]
        if k == "save_held":
            return ["save_held", draw(ints(0, 1)), {}]
        if k == "flush":
            return ["flush"]
        if k == "txn" and depth < 3:
            n = draw(ints(1, 3))
            return ["txn", [one_op(draw, spec, weights, depth + 1) for _ in range(n)],
                    pickf(draw, [False, True, "error"])]
    return create_op(draw, spec, 0)


DEFAULT_WEIGHTS = {"create": 4, "update": 7, "bulk": 2, "bulkset": 1, "incr": 1, "touch": 1, "delete": 2, "m2m": 5,
                   "hold": 1, "save_held": 1, "flush": 3, "txn": 1}


def longest(spec, mi):
    """How many rows may be in a line: counting rows of the own table takes time exponential in the depth."""
    own = sum(d["kind"] in ("count", "sum") and d["owner"] == mi for d in spec["models"][mi]["denorms"])
    return {0: 12, 1: 7, 2: 4}.get(own, 3)


def bigger(draw, spec):
    """Sometimes a long chain of rows, or many rows at once."""
    for mi, m in enumerate(spec["models"]):
        for r in m["rels"]:
            if r["to"] == mi and r["kind"] == "fk" and flag(draw, 3):
                return [["line", mi, r["name"], draw(ints(2, longest(spec, mi))), {}]]
    mi = draw(ints(0, len(spec["models"]) - 1))
    m = spec["models"][mi]
    if any(r["kind"] == "o2o" and not r.get("null") for r in m["rels"]) or not flag(draw, 20):
        return []
    rels = {k: v for k, v in all_rels(draw, m).items() if m["rels"] and [r for r in m["rels"] if r["name"] == k][0]["kind"] == "fk"}
    # rows that mark each other are saved once per marker where markers of one row are not merged
    edges = {(i, r["to"] if dep["dir"] == "fwd" else dep["owner"])
             for i, mm in enumerate(spec["models"]) for d in mm["denorms"] if d["kind"] in ("text", "fk", "m2m", "key")
             for dep in d["deps"] for r in spec["models"][dep["owner"]]["rels"] if r["name"] == dep["rel"]}
    edges |= {(i, d["owner"]) for i, mm in enumerate(spec["models"]) for d in mm["denorms"] if d["kind"] in ("count", "sum")}
    mutual = any((j, i) in edges for i, j in edges)
    op = ["many", mi, draw(ints(5, 40)) if mutual or flag(draw, 2) else draw(ints(101, 150)), {}, rels]
    ops = [op + [[draw(ints(0, 1)), draw(ints(0, 2))]] if m.get("generic") else op]
    for oi, mm in enumerate(spec["models"]):
        for r in mm["rels"]:
            if r["kind"] == "m2m" and mi in (oi, r["to"]) and not (mutual and oi == r["to"]) and flag(draw, 2):
                # all of them linked to one row
                side = "rev" if r["to"] != mi or (oi == mi and r.get("rn") and flag(draw, 2)) else "fwd"
                ops.append(["m2m", oi, r["name"], draw(ints(0, 3)), "all", [0], side])
    return ops


def history(draw, spec, weights=None, nmax=8, nmin=1, prelude=True):
    weights = dict(weights or DEFAULT_WEIGHTS)
    if not any(r["kind"] == "m2m" for m in spec["models"] for r in m["rels"]):
        weights.pop("m2m", None)
    weights = {k: w for k, w in weights.items() if w}
    ops = []
    if prelude:
        for mi, m in enumerate(spec["models"]):
            for _ in range(draw(ints(1, 3))):
                ops.append(create_op(draw, spec, mi, pickf(draw, ["save", "bulk", "raw"])))
        for mi, m in enumerate(spec["models"]):
            for r in m["rels"]:
                if r["kind"] == "m2m":
                    for _ in range(draw(ints(0, 3))):
                        ops.append(["m2m", mi, r["name"], draw(ints(0, 3)), "add", [draw(ints(0, 3))], "fwd"])
        ops += bigger(draw, spec)
        if flag(draw, 2):
            ops.append(["flush"])
    # what one write fails to mark, a later one often does
    each = "flush" in weights and flag(draw, 3)
    for _ in range(draw(ints(nmin, nmax))):
        ops.append(one_op(draw, spec, weights))
        if each and ops[-1] != ["flush"]:
            ops.append(["flush"])
    return ops


# ---------------------------------------------------------------- crowds

def crowd(kind, denorms, n=300):
    """A fixed case with many rows (Alpha) around one (Beta); denorms are (model index, definition without names)."""
    rel = {"name": "r1", "kind": kind, "to": 1, "null": True, "set_null": False, "rn": None}
    models = [{"name": "Alpha", "table": None, "pk": "auto", "rels": [rel], "denorms": [],
               "fields": [{"name": "f1", "kind": "pint", "null": False, "column": None}]},
              {"name": "Beta", "table": None, "pk": "auto", "rels": [], "denorms": [],
               "fields": [{"name": "f2", "kind": "pint", "null": False, "column": None}]}]
    if kind == "gen":
        # attached to Beta
        models[0].update(rels=[], generic=True)
        models[1]["rels"] = [{"name": "r1", "kind": "gen", "to": 0, "rn": None}]
    for i, (mi, d) in enumerate(denorms):
        d = dict(d, name="d%d" % (i + 1))
        if d["kind"] in ("count", "sum"):
            d.update(owner=0, rel="r1")
        else:
            d.setdefault("own", [])
            d["deps"] = [{"owner": 1 if kind == "gen" else 0, "rel": "r1", "ref": "class", "fk": None, "type": None,
                          "dir": "fwd" if (mi == 0) != (kind == "gen") else "bwd",
                          "read": [] if d["kind"] == "key" else ["f2" if mi == 0 else "f1"]}]
        models[mi]["denorms"].append(d)
    ops = [["create", 1, "save", {"f2": 1}, {}], ["create", 1, "save", {"f2": 2}, {}],
           ["many", 0, n, {"f1": 1}, {"r1": 0} if kind == "fk" else {}] + ([[1, 0]] if kind == "gen" else [])]
    if kind == "m2m":
        ops.append(["m2m", 0, "r1", 0, "all", [0], "rev"])
    ops += [["flush"], ["update", 1, 0, "qs", {"f2": 3}, {}], ["flush"], ["bulkset", 0, {"f1": 2}], ["flush"],
            ["update", 0, n - 1, "save", {"f1": 5}, {}], ["flush"], ["delete", 0, 0, "all"]]
    return {"spec": {"models": models}, "ops": ops}
