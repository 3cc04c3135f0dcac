"""The properties: what is generated, how it is run, what must hold."""
from hypothesis import strategies as st

import gen as G
from gen import Builder, flag, ints, pickf
from world import Violation, World

PROPS = {}


def register(cls):
    PROPS[cls.id] = cls()
    return cls


# Known findings are listed in KNOWN_FINDINGS.txt; `known` names the one a violation belongs to.
SELF_LINK = "self-link"


class Prop(object):
    id = None

    def prepare(self, backend):
        pass

    crowds = ()

    def fixed(self, backend):
        return [G.crowd(*c) for c in self.crowds]

    def known(self, v, case, backend):
        """The key in KNOWN_FINDINGS.txt of the finding a violation is an instance of, or None."""
        if v.kind == "stale" and getattr(v, "self_read", False):
            return SELF_LINK

    def strategy(self, backend):
        prop = self

        @st.composite
        def cases(draw):
            return prop.case(draw, backend)
        return cases()


class FlushProp(Prop):
    """History on a schema; after every flush everything must be current."""
    weights = None
    nmax = 8

    def schema(self, draw, backend):
        raise NotImplementedError

    def case(self, draw, backend):
        spec = self.schema(draw, backend)
        return {"spec": spec, "ops": G.history(draw, spec, self.weights, self.nmax)}

    def run(self, case, backend):
        with World(case["spec"]) as w:
            w.install()
            try:
                for op in case["ops"]:
                    if op[0] == "flush":
                        w.flush_and_check()
                    else:
                        w.apply(op)
                        self.after_op(w, op)
                w.flush_and_check("after the final flush")
                self.at_end(w)
            except Violation as e:
                e.info = self.info(w)
                raise
            return self.info(w)

    def after_op(self, w, op):
        pass

    def at_end(self, w):
        pass

    def info(self, w):
        return {"nontrivial": w.stats.get("repaired", 0) > 0,
                "classes": ["op:" + k for k in w.stats] +
                           ["denorm:" + d["kind"] for m in w.spec["models"] for d in m["denorms"]]}


def dep_reads(b, draw, ti, extra=()):
    return b.reads(ti, extra)


@register
class C02(FlushProp):
    id = "C02"
    crowds = [("fk", [(0, {"kind": "text"})])]

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        kinds = G.kinds_for(backend)
        b.model(kinds, 1, 3)
        if flag(draw, 3):
            b.model(kinds, 1, 2)
        mi = b.model(G.SIMPLE_KINDS, 0, 1)
        deps = []
        for ti in range(mi):
            for _ in range(1 + (1 if flag(draw, 3) else 0)):
                r = b.rel(pickf(draw, ["fk", "fk", "o2o"]), mi, ti)
                deps.append(b.dep(mi, mi, r, "fwd", b.reads(ti)))
        if flag(draw, 2) and len(deps) > 1:
            b.text(mi, deps[:1])
            b.text(mi, deps[1:])
        else:
            b.text(mi, deps)
        return b.finish()


@register
class C03(FlushProp):
    id = "C03"
    crowds = [("fk", [(1, {"kind": "text"})])]
    weights = dict(G.DEFAULT_WEIGHTS, delete=4, bulk=4, m2m=0)

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        kinds = G.kinds_for(backend)
        mi = b.model(G.SIMPLE_KINDS, 0, 1)
        deps = []
        for _ in range(1 + (1 if flag(draw, 3) else 0)):
            oi = b.model(kinds, 1, 3)
            for _ in range(1 + (1 if flag(draw, 3) else 0)):
                r = b.rel(pickf(draw, ["fk", "fk", "o2o"]), oi, mi)
                deps.append(b.dep(mi, oi, r, "bwd", b.reads(oi, ["pk"])))
        if flag(draw, 2) and len(deps) > 1:
            b.text(mi, deps[:1])
            b.text(mi, deps[1:])
        else:
            b.text(mi, deps)
        return b.finish()


@register
class C04(FlushProp):
    id = "C04"
    crowds = [("m2m", [(0, {"kind": "text"})]), ("m2m", [(1, {"kind": "text"})])]
    weights = dict(G.DEFAULT_WEIGHTS, m2m=12, update=5, create=2, incr=0)

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        kinds = G.kinds_for(backend)
        a = b.model(kinds, 1, 2)
        if flag(draw, 3):
            c = a
        else:
            c = b.model(kinds, 1, 2)
        rels = [b.rel("m2m", a, c)]
        if flag(draw, 3):
            rels.append(b.rel("m2m", a, c) if flag(draw, 2) else b.rel("m2m", c, a))
        for i in range(draw(ints(1, 3))):
            r = pickf(draw, rels)
            owner = a if r in b[a]["rels"] else c
            if flag(draw, 2):
                b.text(owner, [b.dep(owner, owner, r, "fwd", b.reads(r["to"], ["pk"]))])
            else:
                b.text(r["to"], [b.dep(r["to"], owner, r, "bwd", b.reads(owner, ["pk"]))])
        return b.finish()


@register
class C05(FlushProp):
    id = "C05"
    crowds = [("gen", [(1, {"kind": "text"})])]

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        kinds = G.kinds_for(backend)
        owners = [b.model(G.SIMPLE_KINDS, 0, 1) for _ in range(draw(ints(1, 2)))]
        ti = b.model(kinds, 1, 2, generic=True)
        for oi in owners:
            r = b.rel("gen", oi, ti)
            for _ in range(1 + flag(draw, 4)):
                b.text(oi, [b.dep(oi, oi, r, "fwd", b.reads(ti, ["pk"]))])
        if flag(draw, 3):
            # the attached table has another reader
            r = b.rel("fk", ti, owners[0])
            b.text(owners[0], [b.dep(owners[0], ti, r, "bwd", b.reads(ti))])
        if flag(draw, 3):
            # the attached row reads what it is attached to
            for oi in owners:
                b.text(ti, [b.dep(ti, oi, r, "bwd", b.reads(oi, ["pk"])) for r in b[oi]["rels"]])
        return b.finish()


@register
class C06(FlushProp):
    id = "C06"
    nmax = 8

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        kinds = G.SIMPLE_KINDS
        if flag(draw, 2):
            # a tree, and possibly something hanging off it
            t = b.model(kinds, 1, 1)
            r = b.rel("fk", t, t)
            direction = pickf(draw, ["fwd", "bwd"])
            d = b.text(t, [], own=b.readable(t)[:1])
            d["deps"].append(b.dep(t, t, r, direction, [d["name"]]))
            if flag(draw, 2):
                x = b.model(kinds, 0, 1)
                k = pickf(draw, ["fk", "fk", "m2m"])
                rr = b.rel(k, x, t)
                b.text(x, [b.dep(x, x, rr, "fwd", [d["name"]])])
            return b.finish()
        n = draw(ints(3, 4))
        mis = [b.model(kinds, 1, 1) for _ in range(n)]
        prev = b.readable(0)[0]
        for i in range(1, n):
            a, c = mis[i - 1], mis[i]
            k = pickf(draw, ["fk", "fk", "o2o", "m2m"])
            if flag(draw, 2):
                r = b.rel(k, c, a)
                dep = b.dep(c, c, r, "fwd", [prev])
            else:
                r = b.rel(k, a, c)
                dep = b.dep(c, a, r, "bwd", [prev])
            prev = b.text(c, [dep], own=[])["name"]
        return b.finish()


@register
class C07(FlushProp):
    id = "C07"
    weights = {"create": 2, "update": 10, "bulk": 3, "bulkset": 2, "incr": 1, "flush": 4, "touch": 1, "delete": 1}

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        kinds = G.kinds_for(backend)
        mi = b.model(kinds, 9, 20) if flag(draw, 6) else b.model(kinds, 1, 3)
        if flag(draw, 2):
            ti = b.model(["int"], 1, 1)
            b.rel(pickf(draw, ["fk", "o2o"]), mi, ti)
        for _ in range(draw(ints(1, 2))):
            b.text(mi, [], own=b.readable(mi) + b.keys(mi))
        return b.finish()

    def case(self, draw, backend):
        spec = self.schema(draw, backend)
        ops = G.history(draw, spec, self.weights, 6)
        # direct transitions between two values of one column, past the model's save
        m = spec["models"][0]
        for _ in range(draw(ints(0, 2))):
            ops += G.near_update(draw, spec, 0)
        for _ in range(draw(ints(1, 4))):
            f = pickf(draw, m["fields"])
            ops.append(["update", 0, 0, pickf(draw, ["qs", "raw"]), {f["name"]: G.value(draw, f)}, {}])
            if flag(draw, 2):
                ops.append(["flush"])
            ops.append(["update", 0, 0, pickf(draw, ["qs", "raw"]), {f["name"]: G.value(draw, f)}, {}])
            ops.append(["flush"])
        for r in m["rels"]:
            ops.append(["create", 1, "save", G.some_values(draw, spec["models"][1]), {}])
            ops.append(["update", 0, 0, pickf(draw, ["qs", "raw"]), {}, {r["name"]: pickf(draw, [None, 0, 1])}])
            ops.append(["flush"])
        return {"spec": spec, "ops": ops}


@register
class C08(FlushProp):
    id = "C08"

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        kinds = G.SIMPLE_KINDS
        t = b.model(kinds, 1, 1)
        mi = b.model(kinds, 0, 1, pk=pickf(draw, ["auto", "auto", "uuid"]))
        for _ in range(draw(ints(1, 2))):
            k = pickf(draw, ["fk", "o2o", "m2m"])
            fwd = flag(draw, 2)
            r = b.rel(k, mi, t) if fwd else b.rel(k, t, mi)
            dep = b.dep(mi, mi, r, "fwd", []) if fwd else b.dep(mi, t, r, "bwd", [])
            what = pickf(draw, ["fk", "m2m"])
            d = {"kind": what, "name": b.fresh("d"), "to": t, "deps": [dep]}
            if what == "fk":
                d["as_object"] = flag(draw, 2)
            else:
                d["as_pk"] = flag(draw, 2)
            b[mi]["denorms"].append(d)
        if flag(draw, 3):
            b.text(mi, [], own=b.readable(mi))
        return b.finish()


# ---------------------------------------------------------------- counts and sums

class AggProp(Prop):
    """Aggregates are exact after every operation."""
    weights = {"create": 5, "update": 9, "bulk": 5, "bulkset": 1, "incr": 2, "touch": 2, "delete": 4, "hold": 1,
               "save_held": 2, "flush": 1, "txn": 2}
    nmax = 9

    def case(self, draw, backend):
        spec = self.schema(draw, backend)
        return {"spec": spec, "ops": G.history(draw, spec, self.weights, self.nmax)}

    def run(self, case, backend):
        with World(case["spec"]) as w:
            w.install()
            seen = set()

            def check(op):
                n = w.check_aggregates("after %s" % op[0])
                w.bump("compared", n)
                for mi, m in enumerate(w.spec["models"]):
                    for d in m["denorms"]:
                        if d["kind"] in ("count", "sum"):
                            seen.update((mi, d["name"], v) for v in
                                        w.model(mi)._base_manager.values_list(d["name"], flat=True))
            w.after = check
            for op in case["ops"]:
                w.apply(op)
                w.check_aggregates("after %s" % op[0])
            w.flush()
            w.check_aggregates("after the final flush")
            self.at_end(w, case)
            return {"nontrivial": len(seen) >= 3,
                    "classes": ["op:" + k for k in w.stats] +
                               ["denorm:" + d["kind"] for m in w.spec["models"] for d in m["denorms"]]}

    def at_end(self, w, case):
        pass

    def add_extra(self, b, draw):
        """Sometimes callback fields that read the aggregate, to see the triggers work together."""
        if flag(draw, 3):
            for mi, m in enumerate(b.spec["models"]):
                for d in list(m["denorms"]):
                    if d["kind"] in ("count", "sum"):
                        b.text(mi, [], own=b.readable(mi) + [d["name"]])
                        return


@register
class C09(AggProp):
    id = "C09"
    crowds = [("fk", [(1, {"kind": "count"})])]

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        kinds = G.SIMPLE_KINDS
        mi = b.model(kinds, 0, 1)
        if flag(draw, 4) and backend != "mysql":
            r = b.rel("fk", mi, mi)
            b[mi]["denorms"].append({"kind": "count", "name": b.fresh("n"), "owner": mi, "rel": r["name"]})
        for _ in range(draw(ints(1, 2))):
            oi = b.model(kinds, 0, 2)
            for _ in range(draw(ints(1, 2))):
                r = b.rel("fk", oi, mi)
                for _ in range(1 + flag(draw, 4)):
                    b[mi]["denorms"].append({"kind": "count", "name": b.fresh("n"), "owner": oi, "rel": r["name"]})
        if flag(draw, 3):
            # the counted model is itself counted on
            oi = 1
            xi = b.model(kinds, 0, 1)
            r = b.rel("fk", xi, oi)
            b[oi]["denorms"].append({"kind": "count", "name": b.fresh("n"), "owner": xi, "rel": r["name"]})
        self.add_extra(b, draw)
        return b.finish()


@register
class C10(AggProp):
    id = "C10"
    crowds = [("fk", [(1, {"kind": "sum", "field": "f1"})])]
    weights = dict(AggProp.weights, incr=4, update=11)

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        mi = b.model(G.SIMPLE_KINDS, 0, 1)
        if flag(draw, 3):
            b.model(G.SIMPLE_KINDS, 0, 1)
        oi = b.model(["pint"], 1, 2)
        for ti in range(oi):
            r = b.rel("fk", oi, ti)
            for f in b[oi]["fields"]:
                if f is b[oi]["fields"][0] or flag(draw, 2):
                    b[ti]["denorms"].append({"kind": "sum", "name": b.fresh("n"), "owner": oi, "rel": r["name"],
                                             "field": f["name"]})
            if flag(draw, 3):
                b[ti]["denorms"].append({"kind": "count", "name": b.fresh("n"), "owner": oi, "rel": r["name"]})
        self.add_extra(b, draw)
        return b.finish()


LOOKUPS = {
    "int": ["exact", "gt", "gte", "lt", "lte", "in", "range", "isnull"],
    "pint": ["exact", "gt", "gte", "lt", "lte", "in", "isnull"],
    "text": ["exact", "contains", "startswith", "in", "isnull", "icontains", "iexact"],
    "char": ["exact", "contains", "startswith", "endswith", "in", "isnull"],
    "bool": ["exact"],
    "dec": ["exact", "gt", "lte"],
    "date": ["exact", "gt", "lte"],
    "dt": ["exact", "gt"],
}


def condition(draw, fields):
    f = pickf(draw, fields)
    lk = pickf(draw, LOOKUPS[f["kind"]])
    if lk == "isnull":
        return {f["name"] + "__isnull": draw(st.booleans())}
    if lk == "in":
        return {f["name"] + "__in": draw(st.lists(st.sampled_from(G.DOMAIN[f["kind"]]), min_size=1, max_size=3, unique=True))}
    if lk == "range":
        a = sorted([pickf(draw, G.DOMAIN["int"]), pickf(draw, G.DOMAIN["int"])])
        return {f["name"] + "__range": a}
    v = pickf(draw, G.DOMAIN[f["kind"]])
    return {f["name"] if (lk == "exact" and flag(draw, 2)) else f["name"] + "__" + lk: v}


def conditions(draw, b, backend):
    """Gives counts and sums a filter, an exclusion or both, where those are supported."""
    for m in b.spec["models"]:
        for d in m["denorms"] if backend != "sqlite" else ():
            fields = [f for f in b[d["owner"]]["fields"] if f["kind"] in LOOKUPS] if d["kind"] in ("count", "sum") else []
            if fields and flag(draw, 2):
                for how in pickf(draw, [["filter"], ["exclude"], ["filter", "exclude"]]):
                    d[how] = condition(draw, fields)


@register
class C11(AggProp):
    id = "C11"
    weights = dict(AggProp.weights, update=12)

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        mi = b.model(G.SIMPLE_KINDS, 0, 1)
        oi = b.model(list(LOOKUPS), 1, 3)
        b[oi]["fields"].append({"name": b.fresh("f"), "kind": "pint", "null": flag(draw, 3), "column": None})
        r = b.rel("fk", oi, mi)
        for _ in range(draw(ints(1, 2))):
            d = {"kind": pickf(draw, ["count", "sum"]), "name": b.fresh("n"), "owner": oi, "rel": r["name"]}
            if d["kind"] == "sum":
                d["field"] = b[oi]["fields"][-1]["name"]
            what = draw(ints(0, 2))
            if what in (0, 2):
                d["filter"] = condition(draw, b[oi]["fields"])
                if flag(draw, 3):
                    d["filter"].update(condition(draw, b[oi]["fields"]))
            if what in (1, 2):
                d["exclude"] = condition(draw, b[oi]["fields"])
                if flag(draw, 3):
                    d["exclude"].update(condition(draw, b[oi]["fields"]))
            b[mi]["denorms"].append(d)
        return b.finish()

    def run(self, case, backend):
        if backend != "sqlite":
            return super(C11, self).run(case, backend)
        # conditions are not supported there: refused, when declared or when installed, or else right
        try:
            with World(case["spec"]) as w:
                w.install()
        except Violation as e:
            if e.kind == "declaration-raised" and "NotImplementedError" in e.detail:
                return {"nontrivial": True, "classes": ["refused when declared"]}
            if e.kind == "install-raised" and "OperationalError" in e.detail:
                return {"nontrivial": True, "classes": ["refused when installed"]}
            raise
        return super(C11, self).run(case, backend)


@register
class C12(AggProp):
    id = "C12"
    weights = {"create": 4, "update": 6, "bulk": 3, "delete": 3, "hold": 6, "save_held": 8, "incr": 1, "txn": 1}

    def schema(self, draw, backend):
        b = Builder(draw, backend)
        mi = b.model(G.SIMPLE_KINDS, 0, 2, pk=pickf(draw, ["auto", "auto", "uuid", "char"]))
        oi = b.model(["pint"], 1, 1)
        r = b.rel("fk", oi, mi)
        for _ in range(draw(ints(1, 2))):
            d = {"kind": pickf(draw, ["count", "sum"]), "name": b.fresh("n"), "owner": oi, "rel": r["name"]}
            if d["kind"] == "sum":
                d["field"] = b[oi]["fields"][0]["name"]
            b[mi]["denorms"].append(d)
        self.add_extra(b, draw)
        return b.finish()

    def case(self, draw, backend):
        c = super(C12, self).case(draw, backend)
        spec = c["spec"]
        if backend != "sqlite":
            for _ in range(draw(ints(1, 3))):
                w = {"create": 4, "update": 5, "bulk": 2, "delete": 3}
                c["ops"].append(["race", 0, draw(ints(0, 2)), G.some_values(draw, spec["models"][0]), draw(ints(1, 4)),
                                 G.one_op(draw, spec, w)])
        return c


# ---------------------------------------------------------------- cache keys

def keyed_schema(b, draw, kind, with_own, generic=True, reads=True):
    n = draw(ints(2, 3))
    for _ in range(n):
        b.model(G.SIMPLE_KINDS, 1, 1)
    G.random_rels(b, draw, G.some(draw, 1, 3, 6))
    if generic and flag(draw, 3):
        ti = b.model(G.SIMPLE_KINDS, 1, 1, generic=True)
        for oi in range(draw(ints(1, 2))):
            b.rel("gen", oi, ti)
    added = 0
    order = list(range(len(b.spec["models"])))
    for _ in range(draw(ints(1, 3))):
        mi = pickf(draw, order)
        av = b.deps_available(mi)
        if not av:
            continue
        d = {"kind": kind, "name": b.fresh("k"), "own": [], "deps": []}
        b[mi]["denorms"].append(d)
        for _ in range(G.some(draw, 1, 2, 6)):
            oi, r, direction = av[draw(ints(0, len(av) - 1))]
            ti = r["to"] if direction == "fwd" else oi
            dep = b.dep(mi, oi, r, direction, b.reads(ti) if reads else [])
            if any(x["rel"] == dep["rel"] and x["dir"] == dep["dir"] for x in d["deps"]):
                continue
            d["deps"].append(dep)
            if not G.acyclic(G.update_edges(b.spec)):
                d["deps"].pop()
        if d["deps"] or flag(draw, 2):
            added += 1
        else:
            b[mi]["denorms"].remove(d)
    if not added:
        b[0]["denorms"].append({"kind": kind, "name": b.fresh("k"), "own": [], "deps": []})


@register
class C13(Prop):
    id = "C13"
    crowds = [("fk", [(0, {"kind": "key"})]), ("fk", [(1, {"kind": "key"})]), ("m2m", [(0, {"kind": "key"})]), ("m2m", [(1, {"kind": "key"})])]
    weights = {"create": 4, "update": 8, "bulk": 2, "bulkset": 1, "incr": 1, "touch": 3, "delete": 2, "m2m": 6,
               "hold": 1, "save_held": 1, "txn": 1}

    def case(self, draw, backend):
        b = Builder(draw, backend)
        keyed_schema(b, draw, "key", False, reads=False)
        spec = b.finish()
        return {"spec": spec, "ops": G.history(draw, spec, self.weights, 8)}

    def run(self, case, backend):
        with World(case["spec"]) as w:
            w.install()
            state = {"d": w.dump()}

            def after(op):
                d1 = w.dump()
                if op[0] != "txn":
                    self.compare(w, state["d"], d1, op, backend)
                state["d"] = d1
            w.after = after
            for op in case["ops"]:
                if op[0] != "flush":
                    w.apply(op)
            return {"nontrivial": w.stats.get("must", 0) >= 1 and w.stats.get("must not", 0) >= 1,
                    "classes": ["op:" + k for k in w.stats]}

    def compare(self, w, d0, d1, op, backend):
        keys = {(mi, d["name"]) for mi, m in enumerate(w.spec["models"]) for d in m["denorms"] if d["kind"] == "key"}
        full, links = w.diff(d0, d1)
        base, _ = w.diff(d0, d1, keys)
        linked = {}
        for (oi, name), (a, c) in links:
            linked.setdefault((oi, name), set()).add((a, c))

        def link_touched(mi, pk, dep):
            x = linked.get((dep["owner"], dep["rel"]), ())
            return any((a if dep["dir"] == "fwd" else c) == pk for a, c in x)

        def closure():
            hot = set(base) | set(w.saved)
            while True:
                new = set()
                for mi, m in enumerate(w.spec["models"]):
                    for d in m["denorms"]:
                        for pk in d1[0][mi]:
                            if (mi, pk) in hot:
                                continue
                            for dep in d["deps"]:
                                r0, r1 = w.related_keys(d0, d1, mi, pk, dep)
                                if (r0 | r1) & hot or link_touched(mi, pk, dep):
                                    new.add((mi, pk))
                if not new:
                    return hot
                hot |= new
        hot = closure()
        for mi, m in enumerate(w.spec["models"]):
            for d in m["denorms"]:
                for pk, row in d1[0][mi].items():
                    if pk not in d0[0][mi]:
                        if op[0] == "create" and op[2] != "raw" and row[d["name"]] == 0:
                            raise Violation("key-not-set", "new %s(pk=%r) has no cache key" % (m["name"], pk))
                        continue
                    old, new = d0[0][mi][pk][d["name"]], row[d["name"]]
                    must = (mi, pk) in w.saved
                    for dep in d["deps"]:
                        r0, r1 = w.related_keys(d0, d1, mi, pk, dep)
                        rel = [r for r in w.m(dep["owner"])["rels"] if r["name"] == dep["rel"]][0]
                        if (dep["dir"], rel["kind"]) in (("fwd", "fk"), ("fwd", "o2o"), ("bwd", "gen")):
                            # which row is pointed to is a column of the row itself
                            must = must or bool(r0 == r1 and r0 & full)
                        elif dep["dir"] == "bwd" or rel["kind"] != "fk":
                            must = must or r0 != r1 or bool((r0 | r1) & full) or link_touched(mi, pk, dep)
                    if must:
                        w.bump("must")
                        if old == new:
                            raise Violation("key-unchanged", "%s(pk=%r).%s kept its value over %s"
                                            % (m["name"], pk, d["name"], op[0]))
                    elif (mi, pk) not in hot:
                        w.bump("must not")
                        if old != new:
                            raise Violation("key-changed", "%s(pk=%r).%s changed over %s although nothing it "
                                            "depends on did" % (m["name"], pk, d["name"], op[0]))


@register
class C14(Prop):
    id = "C14"
    weights = {"create": 4, "update": 8, "touch": 2, "delete": 2, "m2m": 6, "hold": 2, "save_held": 2, "txn": 1}

    def case(self, draw, backend):
        b = Builder(draw, backend)
        keyed_schema(b, draw, "cached", True)
        for m in b.spec["models"]:
            if any(d["kind"] == "cached" for d in m["denorms"]):
                # own columns are only followed when written by saving
                m["orm_only"] = True
                for r in m["rels"]:
                    r["set_null"] = False
                for d in m["denorms"]:
                    if flag(draw, 2):
                        d["own"] = [f["name"] for f in m["fields"]]
        spec = b.finish()
        ops = [self.tame(spec, o) for o in G.history(draw, spec, self.weights, 8)]
        return {"spec": spec, "ops": ops}

    def tame(self, spec, op):
        if op[0] == "txn":
            return ["txn", [self.tame(spec, o) for o in op[1]], op[2]]
        if op[0] in ("bulk", "bulkset", "incr") and spec["models"][op[1]].get("orm_only"):
            return ["touch", op[1], 0, "save"]
        if op[0] == "update" and op[3] in ("qs", "raw", "update_fields") and spec["models"][op[1]].get("orm_only"):
            return op[:3] + ["save"] + op[4:]
        return op

    def run(self, case, backend):
        from django.core.cache import cache
        cache.clear()
        with World(case["spec"]) as w:
            w.install()
            seen = set()

            def after(op):
                dump = w.dump()
                for mi, m in enumerate(w.spec["models"]):
                    ds = [d for d in m["denorms"] if d["kind"] == "cached"]
                    if not ds:
                        continue
                    for o in list(w.model(mi)._base_manager.all()):
                        for d in ds:
                            exp = w.expected(dump, mi, dump[0][mi][o.pk], d)
                            got = getattr(o, d["name"])
                            seen.add((mi, o.pk, d["name"], exp))
                            if got != exp:
                                raise Violation("stale-cached", "after %s: %s(pk=%r).%s is %r, must be %r"
                                                % (op[0], m["name"], o.pk, d["name"], got, exp))
            w.after = after
            for op in case["ops"]:
                if op[0] != "flush":
                    w.apply(op)
            per = {}
            for mi, pk, n, e in seen:
                per.setdefault((mi, pk, n), set()).add(e)
            return {"nontrivial": any(len(x) > 1 for x in per.values()), "classes": ["op:" + k for k in w.stats]}
