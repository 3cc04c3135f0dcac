"""Properties of single saves, of requests and commands, of concurrent flushes and of migrations."""
import contextlib

from django.core.exceptions import ObjectDoesNotExist
from django.db import IntegrityError, connection, connections

import gen as G
import schema as S
from gen import flag, ints, pickf
from props import Prop, register
from props2 import fresh_connection, has
from world import Diverged, Interleave, Violation, World, canon


# ---------------------------------------------------------------- saving one instance

NEW_WAYS = ["save", "create", "force_insert", "bulk", "get_or_create", "update_or_create", "preset"]
OLD_WAYS = ["save", "save", "force_update", "held", "refreshed", "twice", "copy", "copy_adding", "update_or_create",
            "moved"]


def raw_func(spec, mi, d):
    make = {"text": S.text_func, "fk": S.fk_func, "m2m": S.m2m_func, "cached": S.cached_func}[d["kind"]]
    return make(spec, mi, d)


@register
class C24(Prop):
    id = "C24"
    weights = dict(G.DEFAULT_WEIGHTS, flush=1, hold=3, save_held=0, txn=0)

    def case(self, draw, backend):
        b = G.mixed(draw, backend, features=("text", "text", "count", "sum", "key", "fk", "m2m"), nmodels=(2, 3),
                    nfeatures=(2, 5), pks=("auto", "auto", "auto", "uuid", "char", "int"))
        for mi, m in enumerate(b.spec["models"]):
            if flag(draw, 4):
                m["denorms"].append({"kind": "cached", "name": b.fresh("d"), "deps": [],
                                     "own": [f["name"] for f in m["fields"] if f["kind"] != "auto_now"]})
                if not G.settles(b.spec):
                    m["denorms"].pop()
        for m in b.spec["models"]:
            for d in m["denorms"]:
                if d["kind"] == "text" and flag(draw, 4):
                    d["as"] = pickf(draw, sorted(S.COMPUTED))
                    d["null"], d["nulldef"] = flag(draw, 3), flag(draw, 2)
        spec = b.finish()
        # a save changes counts and sums of other rows right away, so these are not read here
        for m in spec["models"]:
            for d in m["denorms"]:
                for dep in d.get("deps", ()):
                    agg = {x["name"] for x in spec["models"][S.dep_target(spec, dep)]["denorms"]
                           if x["kind"] in ("count", "sum")}
                    dep["read"] = [r for r in dep["read"] if r not in agg]
        ops = G.history(draw, spec, self.weights, 6)
        derived = [i for i, m in enumerate(spec["models"]) if m["denorms"]]
        for _ in range(draw(ints(1, 4))):
            mi = pickf(draw, derived)
            m = spec["models"][mi]
            new = flag(draw, 3)
            put = ["put", mi, pickf(draw, NEW_WAYS if new else OLD_WAYS), new, draw(ints(0, 4)),
                   G.some_values(draw, m), G.some_rels(draw, m), draw(ints(0, 3)),
                   [draw(ints(0, 1)), draw(ints(0, 3))] if m.get("generic") else None]
            ops.insert(draw(ints(len(ops) // 2, len(ops))), put)
        return {"spec": spec, "ops": ops}

    def run(self, case, backend):
        from django.core.cache import cache
        cache.clear()
        with World(case["spec"]) as w:
            w.install()
            done = 0
            for op in case["ops"]:
                if op[0] == "put":
                    done += bool(self.put(w, *op[1:]))
                elif op[0] == "flush":
                    w.flush()
                else:
                    w.apply(op)
            w.flush_and_check("after the final flush")
            w.check_aggregates("at the end")
            return {"nontrivial": done > 0, "classes": ["way:" + k[4:] for k in w.stats if k.startswith("put ")] +
                    ["denorm:" + d["kind"] for m in case["spec"]["models"] for d in m["denorms"]]}

    def junk(self, w, mi, how):
        """Values a caller may have put into denormalised attributes."""
        out = {}
        for d in w.m(mi)["denorms"]:
            if d["kind"] == "text":
                out[d["name"]] = S.computed(d, ["junk", "", "|", "(0)"][how])
            elif d["kind"] in ("count", "sum"):
                out[d["name"]] = [99, 0, 1, 7][how]
            elif d["kind"] == "key":
                out[d["name"]] = [99, 0, 1, 12345][how]
            elif d["kind"] == "fk":
                ps = w.pks(d["to"])
                out[w.model(mi)._meta.get_field(d["name"]).attname] = ps[how % len(ps)] if ps and how else None
        return out

    def put(self, w, mi, way, new, idx, vals, rels, how, where):
        cls = w.model(mi)
        junk = self.junk(w, mi, how)
        stored_already = None
        bulk = False
        try:
            if new:
                v = w.full_values(mi, vals, rels, where, True)
                if v is None:
                    return False
                pk = w.new_pk(mi)
                if pk is not None:
                    v["pk"] = pk
                v.update(junk)
                manager = cls._base_manager
                if way == "preset":
                    if pk is None:
                        v["pk"] = max(w.pks(mi) or [0]) + 1000
                    o = cls(**v)
                    o.save()
                elif way in ("save", "force_insert"):
                    o = cls(**v)
                    o.save(**({"force_insert": True} if way == "force_insert" else {}))
                elif way == "bulk":
                    o = cls(**v)
                    manager.bulk_create([o])
                    bulk = True
                elif way == "create":
                    o = manager.create(**v)
                elif way in ("get_or_create", "update_or_create"):
                    look = v.pop("pk", -1)
                    name = cls._meta.pk.name
                    o, _ = getattr(manager, way)(**dict({name: look} if look != -1 else {name + "__lt": 0}, defaults=v))
                else:
                    raise AssertionError(way)
                stored_already = way == "bulk" and o.pk is None
            else:
                pk = w.pick(mi, idx)
                if pk is None:
                    return False
                copying = way in ("copy", "copy_adding")
                if copying and any(r["kind"] == "o2o" for r in w.m(mi)["rels"]):
                    return False
                if way == "held":
                    o = None
                    for i, x in w.held.values():
                        if i == mi and cls._base_manager.filter(pk=x.pk).exists() and self.sound(w, mi, x):
                            o = x
                    if o is None:
                        return False
                else:
                    o = cls._base_manager.get(pk=pk)
                v = w.full_values(mi, vals, rels, where, False, row_pk=o.pk)
                if v is None:
                    return False
                if way == "refreshed":
                    for k, x in junk.items():
                        setattr(o, k, x)
                    o.refresh_from_db()
                if way == "moved":
                    # related objects are loaded before the relation is changed
                    for d in w.m(mi)["denorms"]:
                        if d["kind"] in ("text", "fk"):
                            raw_func(w.spec, mi, d)(o)
                if way == "update_or_create":
                    v.update(junk)
                    o, made = cls._base_manager.update_or_create(pk=o.pk, defaults=v)
                    if made:
                        raise Violation("created", "update_or_create made another row")
                else:
                    for k, x in list(v.items()) + list(junk.items()):
                        setattr(o, k, x)
                    if copying:
                        o.pk = w.new_pk(mi)
                        if way == "copy_adding":
                            o._state.adding = True
                        elif w.m(mi)["pk"] != "auto":
                            o._state.adding = True
                    o.save(**({"force_update": True} if way == "force_update" else {}))
                    if way == "twice":
                        o.save()
        except Violation:
            raise
        except Exception as e:
            raise Violation("save-raised", "%s(%s).%s raised %s: %s" % (
                w.m(mi)["name"], "new" if new else "old", way, type(e).__name__, str(e)[:400]))
        w.bump("put " + way)
        self.check(w, mi, o, way, junk, bulk, stored_already)
        return True

    def sound(self, w, mi, o):
        """May this outdated instance be saved without breaking a constraint?"""
        for r in w.m(mi)["rels"]:
            if r["kind"] in ("fk", "o2o"):
                att = w.model(mi)._meta.get_field(r["name"]).attname
                t = getattr(o, att)
                if t is None:
                    continue
                if not w.model(r["to"])._base_manager.filter(pk=t).exists():
                    return False
                if r["to"] == mi and w.would_cycle(mi, r, o.pk, t):
                    return False
                if r["kind"] == "o2o" and w.model(mi)._base_manager.filter(**{att: t}).exclude(pk=o.pk).exists():
                    return False
        if w.m(mi).get("generic"):
            a, b = S.generic_attrs(w.m(mi))
            return any(w.ct_id(i) == getattr(o, a) and getattr(o, b) in w.pks(i) for i in range(len(w.spec["models"])))
        return True

    def check(self, w, mi, o, way, junk, bulk, no_pk):
        cls = w.model(mi)
        rows, links = w.dump()
        pk = canon(o.pk) if not no_pk else max(rows[mi])
        what = "%s(pk=%r) by %s: " % (w.m(mi)["name"], pk, way)
        if pk not in rows[mi]:
            raise Violation("not-stored", what + "no such row")
        row = rows[mi][pk]
        for d in w.m(mi)["denorms"]:
            if any(S.rel_of(w.spec, dep)["kind"] == "m2m" and S.dep_target(w.spec, dep) == mi
                   for dep in d.get("deps", ())):
                # a row linked to itself is read before it is written
                continue
            att = cls._meta.get_field(d["name"]).attname
            if d["kind"] in ("text", "fk"):
                exp = raw_func(w.spec, mi, d)(o)
                mem = getattr(o, att)
                if d["kind"] == "fk":
                    exp = exp.pk if hasattr(exp, "pk") else exp
                    obj = getattr(o, d["name"])
                    if canon(obj.pk if obj is not None else None) != canon(exp):
                        raise Violation("memory", what + "%s is the object %r, must be %r" % (d["name"], obj, exp))
                if canon(mem) != canon(exp):
                    raise Violation("memory", what + "%s in memory is %r, must be %r" % (d["name"], mem, exp))
                if row[att] != canon(exp):
                    raise Violation("stored", what + "stored %s is %r, must be %r" % (d["name"], row[att], exp))
            elif d["kind"] == "m2m" and not bulk:
                exp = sorted({canon(getattr(x, "pk", x)) for x in raw_func(w.spec, mi, d)(o)}, key=str)
                got = sorted({b for a, b in links[(mi, d["name"])] if a == pk}, key=str)
                if got != exp:
                    raise Violation("stored", what + "stored %s is %r, must be %r" % (d["name"], got, exp))
            elif d["kind"] in ("count", "sum"):
                exp = w.aggregate(mi, o.pk if not no_pk else pk, d)
                if getattr(o, att) != exp:
                    raise Violation("memory", what + "%s in memory is %r, must be %r" % (d["name"], getattr(o, att), exp))
                if row[att] != exp:
                    raise Violation("stored", what + "stored %s is %r, must be %r" % (d["name"], row[att], exp))
            elif d["kind"] == "key":
                mem = getattr(o, att)
                if mem != row[att]:
                    raise Violation("memory", what + "%s in memory is %r, stored %r" % (d["name"], mem, row[att]))
                if mem == junk.get(d["name"]):
                    raise Violation("stored", what + "the assigned value %r of %s was kept" % (mem, d["name"]))
            elif d["kind"] == "cached":
                exp = raw_func(w.spec, mi, d)(o)
                if getattr(o, d["name"]) != exp:
                    raise Violation("memory", what + "%s in memory is %r, must be %r"
                                    % (d["name"], getattr(o, d["name"]), exp))


# ---------------------------------------------------------------- writes during a flush

OVERWRITTEN = "overwritten"
OVERLOOKED = "overlooked"
MAX_POINTS = 25


class Held(object):
    """Which instances were in memory when the other connection wrote, and saved later."""

    def __init__(self, w):
        self.w = w
        self.loaded = {}
        self.before = set()
        self.saved = set()
        self.done = False

    def statement(self, execute, sql, params, many, context):
        """execute_wrapper: rows are done with when their markers are removed."""
        r = execute(sql, params, many, context)
        if sql.startswith("DELETE") and "denorm_dirtyinstance" in sql and not self.done:
            self.saved = set()
        return r

    def __enter__(self):
        from django.db.models import signals
        signals.post_init.connect(self.init)
        signals.pre_save.connect(self.save)
        signals.post_save.connect(self.save)
        return self

    def __exit__(self, *exc):
        from django.db.models import signals
        signals.post_init.disconnect(self.init)
        signals.pre_save.disconnect(self.save)
        signals.post_save.disconnect(self.save)

    @contextlib.contextmanager
    def paused(self):
        """Not while the other connection writes."""
        self.__exit__()
        yield
        self.__enter__()

    def init(self, instance, **kwargs):
        self.loaded[id(instance)] = instance

    def wrote(self):
        """The other connection has written: rows loaded before and saved or unmarked later can be outdated."""
        self.before = set(self.loaded)
        self.done = True

    def save(self, sender, instance, **kwargs):
        if (id(instance) in self.before or not self.done) and sender in self.w.schema.models:
            self.saved.add((self.w.schema.models.index(sender), canon(instance.pk)))


@register
class C26(Prop):
    id = "C26"
    weights = dict(G.DEFAULT_WEIGHTS, flush=0, hold=0, save_held=0, txn=0)

    def case(self, draw, backend):
        b = G.mixed(draw, backend, features=("text", "text", "text", "count", "sum", "fk", "m2m", "key"), nfeatures=(1, 3))
        spec = b.finish()
        if not has(spec, "text", "fk", "m2m"):
            b.text(0, [])
        ops = [o for o in G.history(draw, spec, self.weights, 4) if o[0] not in ("line", "many")]
        if flag(draw, 2):
            i = draw(ints(0, len(ops)))
            ops.insert(i, ["flush"])
        weights = {k: v for k, v in self.weights.items() if k in ("create", "update", "bulk", "m2m", "delete", "bulkset")}
        if not any(r["kind"] == "m2m" for m in spec["models"] for r in m["rels"]):
            weights.pop("m2m", None)
        return {"spec": spec, "ops": ops, "other": G.one_op(draw, spec, {k: v for k, v in weights.items() if v})}

    def known(self, v, case, backend):
        if v.kind in (OVERWRITTEN, OVERLOOKED):
            return v.kind
        return super(C26, self).known(v, case, backend)

    def interleave(self, w, k, other):
        return Interleave(w, k, other, 20000)

    def replay(self, w, case):
        w.wipe()
        for op in case["ops"]:
            w.apply(op)

    def run(self, case, backend):
        known = []
        stats = {"interleaved": 0, "blocked": 0, "stale": 0}
        with World(case["spec"]) as w:
            w.install()
            self.replay(w, case)
            stats["stale"] = w.stale()
            n = self.flush(w, None, None, stats, Held(w))
            for k in sorted({1 + i * n // MAX_POINTS for i in range(MAX_POINTS)} if n > MAX_POINTS else range(1, n + 1)):
                self.replay(w, case)
                where = "after a flush during which another connection wrote (before statement %d)" % k
                with Held(w) as held:
                    try:
                        self.flush(w, k, case["other"], stats, held)
                    except Violation as e:
                        if e.kind != OVERWRITTEN:
                            raise
                        e.info = self.info(stats, case)
                        known.append(e)
                w.flush()
                stale = w.stale_values()
                if stale and {x[:2] for x in stale} == held.saved and len(held.saved) == 1:
                    # the flush removed the marker of the row it was just working on
                    e = Violation(OVERLOOKED, "%s: %r" % (where, sorted(stale, key=str)))
                    e.info = self.info(stats, case)
                    known.append(e)
                else:
                    w.flush_and_check(where)
                w.check_aggregates("after a write during a flush")
            if known:
                raise known[-1]
        return self.info(stats, case)

    def info(self, stats, case):
        return {"nontrivial": stats["stale"] > 0 and stats["interleaved"] > 0,
                "count": {k: v for k, v in stats.items() if k != "stale"}, "classes": ["other:" + case["other"][0]]}

    def flush(self, w, k, other, stats, held):
        import denorm
        base0 = w.base_of(w.dump())
        state = {}
        i = self.interleave(w, k or -1, other)
        go = i.go

        def wrapped():
            with held.paused():
                go()
            held.wrote()
            if i.done:
                state["base"] = w.base_of(w.dump("second"))
        i.go = wrapped
        error = None
        try:
            with connection.execute_wrapper(i), connection.execute_wrapper(held.statement):
                denorm.flush()
        except Violation:
            raise
        except Diverged as e:
            raise Violation("flush-diverged", str(e))
        except Exception as e:
            error = e
        stats["interleaved"] += i.done
        stats["blocked"] += i.blocked
        written = state.get("base", base0)
        stale = {r for r in held.saved if base0[0][r[0]].get(r[1]) != written[0][r[0]].get(r[1])}
        if error is not None:
            gone = any(set(base0[0][mi]) - set(written[0][mi]) for mi in range(len(base0[0])))
            if isinstance(error, (IntegrityError, ObjectDoesNotExist)) and (gone or stale or has(w.spec, "m2m")):
                # a row was deleted while the flush was working with it, or both stored the same link
                fresh_connection()
                return i.n
            raise Violation("flush-raised", "%s: %s" % (type(error).__name__, str(error)[:300]))
        now = w.base_of(w.dump())
        if now != written:
            rows, links = w.diff(written, now)
            if not links and rows == stale and len(held.saved) == 1:
                raise Violation(OVERWRITTEN, "%r" % sorted(rows, key=str))
            raise Violation("flush-changed-base-data", "written during the flush: %r, overwritten: %r %r" % (
                other, sorted(rows, key=str), sorted(links, key=str)))
        return i.n
