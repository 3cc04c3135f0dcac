"""Properties over mixed schemas: the general one, transactions, faults, marking, skipping."""
import io
from contextlib import redirect_stdout

from django.db import DatabaseError, OperationalError, connection, connections, transaction

import gen as G
import schema as S
from gen import Builder, flag, ints, pickf
from props import FlushProp, Prop, conditions, register
from world import Counter, Diverged, Violation, World


def has(spec, *kinds):
    return any(d["kind"] in kinds for m in spec["models"] for d in m["denorms"])


@register
class C01(FlushProp):
    id = "C01"
    nmax = 10

    def schema(self, draw, backend):
        return G.mixed(draw, backend, pks=("auto", "auto", "auto", "uuid", "char"), self_computed=True).finish()

    def fixed(self, backend):
        """The known finding: a row linked to itself reads its own computed field over that link."""
        spec = {"models": [{
            "name": "Alpha", "table": None, "pk": "auto",
            "fields": [{"name": "f1", "kind": "text", "null": False, "column": None}],
            "rels": [{"name": "r1", "kind": "m2m", "to": 0, "rn": "rev1"}],
            "denorms": [
                {"kind": "text", "name": "d1", "own": ["f1"], "deps": []},
                {"kind": "text", "name": "d2", "own": [], "deps": [
                    {"owner": 0, "rel": "r1", "dir": "fwd", "read": ["d1"], "ref": "self", "fk": None,
                     "type": "forward_m2m"}]}]}]}
        return [{"spec": spec, "ops": [["create", 0, "save", {"f1": "a"}, {}], ["m2m", 0, "r1", 0, "add", [0], "fwd"],
                                       ["flush"], ["update", 0, 0, "qs", {"f1": "b"}, {}]]}]

    def after_op(self, w, op):
        w.check_aggregates("after " + op[0])

    def at_end(self, w):
        w.check_aggregates("at the end")


@register
class C15(Prop):
    id = "C15"
    weights = dict(G.DEFAULT_WEIGHTS, txn=12, flush=3, update=6, create=3)

    def case(self, draw, backend):
        spec = G.mixed(draw, backend).finish()
        return {"spec": spec, "ops": G.history(draw, spec, self.weights, 6)}

    def run(self, case, backend):
        with World(case["spec"]) as w:
            w.install()
            w.check_rollback = True
            for op in case["ops"]:
                if op[0] == "flush":
                    w.flush_and_check()
                else:
                    w.apply(op)
                w.check_aggregates("after %s" % op[0])
                if op[0] == "txn" and op[2] is True and connection.vendor != "sqlite":
                    mine, theirs = w.dump(), w.dump("second")
                    if mine != theirs:
                        raise Violation("commit-invisible", "another connection sees other data after the commit")
            w.flush_and_check("after the final flush")
            w.check_aggregates("at the end")
            return {"nontrivial": w.stats.get("rolled back", 0) > 0 and w.stats.get("repaired", 0) > 0,
                    "classes": ["op:" + k for k in w.stats]}


# ---------------------------------------------------------------- faults

class Killed(BaseException):
    """The process died here."""


class Broken(Exception):
    """A callback failed."""


class Fault(object):
    """execute_wrapper: the k-th statement goes wrong."""

    def __init__(self, k, kind, limit=20000):
        self.k, self.kind = k, kind
        self.n = 0
        self.limit = limit
        self.hit = False

    def __call__(self, execute, sql, params, many, context):
        self.n += 1
        if self.n > self.limit:
            raise Diverged("more than %d statements" % self.limit)
        if self.n != self.k:
            return execute(sql, params, many, context)
        self.hit = True
        if self.kind == "before":
            raise OperationalError("injected before statement %d" % self.k)
        if self.kind == "after":
            execute(sql, params, many, context)
            raise OperationalError("injected after statement %d" % self.k)
        if self.kind == "sql":
            return execute("SELECT no_such_column FROM denorm_dirtyinstance", (), False, context)
        if self.kind == "lost":
            raw = connection.connection
            raw.close()
            return execute(sql, params, many, context)
        if self.kind == "kill":
            connection.connection.close()
            raise Killed()
        raise AssertionError(self.kind)


MAX_POINTS = 20


@register
class C16(Prop):
    id = "C16"
    kinds = ["before", "after", "sql", "lost", "kill", "callback"]
    weights = dict(G.DEFAULT_WEIGHTS, flush=0, hold=0, save_held=0)

    def case(self, draw, backend):
        b = G.mixed(draw, backend, features=("text", "text", "text", "count", "fk", "m2m", "key"), nfeatures=(1, 3))
        spec = b.finish()
        if not has(spec, "text", "fk", "m2m"):
            b.text(0, [])
        ops = G.history(draw, spec, self.weights, 5)
        faults = [[pickf(draw, self.kinds), flag(draw, 4)] for _ in range(draw(ints(1, 2)))]
        return {"spec": spec, "ops": [o for o in ops if o[0] != "flush"], "faults": faults}

    def run(self, case, backend):
        points = stale = 0
        with World(case["spec"]) as w:
            w.install()
            self.replay(w, case)
            stale = w.stale()
            total = {"statements": self.faulty_flush(w, -1, "before", False)}
            self.replay(w, case)
            total["calls"] = self.faulty_flush(w, -1, "callback", False)
            kind0 = case["faults"][0][0]
            n = total["calls" if kind0 == "callback" else "statements"]
            for k in sorted({1 + i * n // MAX_POINTS for i in range(MAX_POINTS)} if n > MAX_POINTS else range(1, n + 1)):
                self.replay(w, case)
                base = w.base_of(w.dump())
                for i, (kind, outer) in enumerate(case["faults"]):
                    n2 = total["calls" if kind == "callback" else "statements"]
                    self.faulty_flush(w, k if i == 0 else k * 5 % max(n2, 1) + 1, kind, outer)
                    points += 1
                    if w.base_of(w.dump()) != base:
                        raise Violation("fault-changed-base-data", "fault %s at %d" % (kind, k))
                w.flush_and_check("after a fault (%s) at point %d of a flush" % (kind0, k))
                w.check_aggregates("after the flush following a fault")
            return {"nontrivial": stale > 0 and points > 1, "count": {"fault points": points},
                    "classes": ["fault:" + f[0] + ("+txn" if f[1] else "") for f in case["faults"]] +
                               ["op:" + o for o in w.stats]}

    def replay(self, w, case):
        w.wipe()
        for op in case["ops"]:
            w.apply(op)

    def faulty_flush(self, w, k, kind, outer):
        """A flush whose k-th statement or callback call goes wrong; returns how many were begun."""
        import denorm
        calls = [0]

        def on_call(mi, name, obj):
            calls[0] += 1
            if calls[0] == k:
                raise Broken("injected in call %d" % k)
        f = Fault(k if kind != "callback" else -1, kind)
        S.HOOKS.on_call = on_call if kind == "callback" else None
        try:
            with connection.execute_wrapper(f):
                if outer:
                    with transaction.atomic():
                        denorm.flush()
                else:
                    denorm.flush()
        except Diverged as e:
            raise Violation("flush-diverged", str(e))
        except (Broken, Killed):
            pass
        except Violation:
            raise
        except Exception as e:
            if not (f.hit or (kind == "callback" and calls[0] >= k)):
                raise Violation("flush-raised", "without any fault: %s: %s" % (type(e).__name__, str(e)[:300]))
        finally:
            S.HOOKS.on_call = None
            connection.execute_wrappers[:] = [x for x in connection.execute_wrappers if x is not f]
        if kind in ("lost", "kill") or connection.in_atomic_block or connection.needs_rollback:
            fresh_connection()
        else:
            connection.close_if_unusable_or_obsolete()
        return calls[0] if kind == "callback" else f.n


def fresh_connection():
    try:
        connection.close()
    except Exception:
        pass
    connection.connection = None
    connection.in_atomic_block = False
    connection.savepoint_ids = []
    connection.needs_rollback = False
    connection.closed_in_transaction = False
    connection.run_on_commit = []
    connection.ensure_connection()


# ---------------------------------------------------------------- what gets marked

WRITES = ("INSERT", "UPDATE", "DELETE", "REPLACE")


class Watch(object):
    """execute_wrapper that remembers writing statements."""

    def __init__(self, limit=20000):
        self.writes = []
        self.n = 0
        self.limit = limit

    def __call__(self, execute, sql, params, many, context):
        self.n += 1
        if self.n > self.limit:
            raise Diverged("more than %d statements" % self.limit)
        if str(sql).lstrip().upper().startswith(WRITES):
            self.writes.append(str(sql)[:200])
        return execute(sql, params, many, context)


class Marks(object):
    """Computes which rows a write may mark, from the difference it made."""

    def __init__(self, w):
        self.w = w

    def changed_columns(self, d0, d1):
        """{(mi, pk): set of changed columns, or None when the row appeared or vanished}"""
        out = {}
        for mi in range(len(self.w.spec["models"])):
            a, b = d0[0][mi], d1[0][mi]
            for pk in set(a) | set(b):
                if pk not in a or pk not in b:
                    out[(mi, pk)] = None
                else:
                    cols = {k for k in a[pk] if a[pk][k] != b[pk][k]}
                    if cols:
                        out[(mi, pk)] = cols
        # a count or sum over a changed row may be written, even with the same value
        while True:
            n = sum(len(c or ()) for c in out.values())
            for mi, m in enumerate(self.w.spec["models"]):
                for d in m["denorms"]:
                    if d["kind"] not in ("count", "sum"):
                        continue
                    att = self.w.model(d["owner"])._meta.get_field(d["rel"]).attname
                    for (oi, opk) in list(out):
                        if oi != d["owner"]:
                            continue
                        for dd in (d0, d1):
                            t = dd[0][oi].get(opk, {}).get(att)
                            if t is not None and out.get((mi, t), set()) is not None:
                                out.setdefault((mi, t), set()).add(d["name"])
            if n == sum(len(c or ()) for c in out.values()):
                return out

    def may(self, d0, d1):
        w = self.w
        changed = self.changed_columns(d0, d1)
        _, links = w.diff(d0, d1)
        linked = {}
        for key, ab in links:
            linked.setdefault(key, set()).add(ab)

        def counts(key, skip):
            if key not in changed:
                return False
            cols = changed[key]
            return cols is None or bool(cols - set(skip) - set(w.m(key[0]).get("always_skip", ())))
        out = set()
        for mi, m in enumerate(w.spec["models"]):
            ds = [d for d in m["denorms"] if d["kind"] in ("text", "fk", "m2m")]
            for pk in set(d0[0][mi]) | set(d1[0][mi]):
                for d in ds:
                    if counts((mi, pk), d.get("skip") or ()):
                        out.add((mi, pk))
                    for dep in d["deps"]:
                        r0, r1 = w.related_keys(d0, d1, mi, pk, dep)
                        if any(counts(x, dep.get("skip") or ()) for x in r0 | r1):
                            out.add((mi, pk))
                        if any((a if dep["dir"] == "fwd" else c) == pk
                               for a, c in linked.get((dep["owner"], dep["rel"]), ())):
                            out.add((mi, pk))
        return out

    def nowhere(self, marked, d0, d1):
        """Those marks that name no row, e.g. the owner of an attached row that was deleted long ago."""
        return {(mi, pk) for mi, pk in marked
                if not any(key_text(x) == pk for d in (d0, d1) for x in d[0][mi])}

    def closure(self, dump, rows):
        """The rows and everything that depends on them over any number of steps."""
        w = self.w
        hot = set(rows)
        while True:
            new = set()
            for mi, m in enumerate(w.spec["models"]):
                for d in m["denorms"]:
                    for dep in d.get("deps", ()):
                        for pk, row in dump[0][mi].items():
                            if (mi, pk) in hot:
                                continue
                            ti = S.dep_target(w.spec, dep)
                            if any((ti, o["pk"]) in hot for o in w.related_rows(dump, mi, row, dep)):
                                new.add((mi, pk))
                    if d["kind"] in ("count", "sum"):
                        # written, even with the same value, when a counted row is
                        att = w.model(d["owner"])._meta.get_field(d["rel"]).attname
                        new |= {(mi, row[att]) for pk, row in dump[0][d["owner"]].items()
                                if (d["owner"], pk) in hot and row[att] is not None} - hot
            if not new:
                return hot
            hot |= new

    def pending(self):
        """Marked rows as (model index, pk as text)."""
        w = self.w
        cts = {w.ct_id(mi): mi for mi in range(len(w.spec["models"]))}
        out = set()
        for ct, oid in w.markers():
            if oid is None:
                continue
            out.add((cts.get(ct, ct), key_text(oid)))
        return out


def key_text(pk):
    return str(pk).replace("-", "") if len(str(pk)) in (32, 36) else str(pk)


def texts(rows):
    return {(mi, key_text(pk)) for mi, pk in rows}


@register
class C17(Prop):
    id = "C17"
    weights = dict(G.DEFAULT_WEIGHTS, touch=5, flush=3, txn=0)

    def case(self, draw, backend):
        b = G.mixed(draw, backend, kinds=G.SIMPLE_KINDS + ["pint", "dec", "dt", "uuid"],
                    features=("text", "text", "text", "fk", "m2m", "count"), pks=("auto", "auto", "auto", "uuid", "char"))
        spec = b.finish()
        return {"spec": spec, "ops": G.history(draw, spec, self.weights, 8)}

    def run(self, case, backend):
        from denorm.models import DirtyInstance
        with World(case["spec"]) as w:
            w.install()
            marks = Marks(w)
            state = {"d": w.dump(), "pending": set()}

            def after(op):
                d1 = w.dump()
                got = marks.pending()
                may = texts(marks.may(state["d"], d1)) | marks.nowhere(got, state["d"], d1)
                w.bump("marked", len(got))
                w.bump("unmarked", sum(len(t) for t in d1[0]) - len(got))
                if got - may:
                    raise Violation("marked-too-much", "%s marked %s, only %s may be" % (
                        op[0], sorted(got - may, key=str)[:3], sorted(may, key=str)[:6]))
                state["d"] = d1
                state["pending"] |= w.markers()
                DirtyInstance.objects.all()._raw_delete("default")
            w.after = after
            for op in case["ops"] + [["flush"]]:
                if op[0] != "flush":
                    w.apply(op)
                    continue
                for ct, oid in sorted(state["pending"], key=str):
                    DirtyInstance(content_type_id=ct, object_id=oid).save()
                state["pending"] = set()
                self.flushes(w, marks)
                state["d"] = w.dump()
            return {"nontrivial": w.stats.get("marked", 0) > 0 and w.stats.get("unmarked", 0) > 0,
                    "classes": ["op:" + k for k in w.stats]}

    def flushes(self, w, marks):
        pending = marks.pending()
        d = w.dump()
        allowed = texts(marks.closure(d, {(mi, pk) for mi, t in enumerate(d[0]) for pk in t
                                          if (mi, key_text(pk)) in pending}))
        calls = []
        S.HOOKS.on_call = lambda mi, name, obj: calls.append((mi, key_text(obj.pk)))
        watch = Watch()
        try:
            w.flush()
            extra = set(calls) - allowed
            if extra:
                raise Violation("recomputed-too-much", "flush recomputed %s; pending %s" % (
                    sorted(extra, key=str)[:3], sorted(pending, key=str)[:5]))
            del calls[:]
            with connection.execute_wrapper(watch):
                w.flush()
        finally:
            S.HOOKS.on_call = None
        if calls:
            raise Violation("idle-flush-recomputes", "a flush with nothing pending computed %r" % calls[:3])
        if watch.writes:
            raise Violation("idle-flush-writes", "a flush with nothing pending executed %r" % watch.writes[:2])


@register
class C18(Prop):
    id = "C18"
    weights = dict(G.DEFAULT_WEIGHTS, update=12, touch=1, txn=0, delete=1, create=2)

    def case(self, draw, backend):
        b = G.mixed(draw, backend, features=("text", "text", "text", "sum", "count"), nfeatures=(1, 3), nmodels=(2, 2),
                    generic_in=2)
        for m in b.spec["models"]:
            # columns that may be skipped: nobody reads them
            for _ in range(draw(ints(1, 2))):
                m["fields"].append({"name": b.fresh("s"), "kind": pickf(draw, ["int", "text"]), "null": flag(draw, 3),
                                    "column": None})
            m["skippable"] = [f["name"] for f in m["fields"] if f["name"].startswith("s")]
            how = draw(ints(0, 3))
            if how == 1:
                for f in m["fields"]:
                    f["column"] = "c_" + f["name"] if flag(draw, 2) else None
            elif how == 2 and not m["fields"][0]["name"].startswith("s"):
                # the column of one has the name of the other
                x, y = m["fields"][0], m["fields"][-1]
                x["column"], y["column"] = y["name"], x["name"]
        if flag(draw, 2):
            # so may relations
            mi, ti = draw(ints(0, 1)), draw(ints(0, 1))
            r = b.rel("fk", mi, ti, name=b.fresh("s"), rn="+", null=True, column="c_s" if flag(draw, 3) else None)
            b[mi]["skippable"].append(r["name"] + "_id")
        spec = b.finish()
        for mi, m in enumerate(spec["models"]):
            if flag(draw, 2):
                m["always_skip"] = self.some(draw, m["skippable"])
            for d in m["denorms"]:
                if d["kind"] == "text" and flag(draw, 2):
                    d["skip"] = self.some(draw, m["skippable"])
                for dep in d.get("deps", ()):
                    if flag(draw, 2):
                        t = spec["models"][S.dep_target(spec, dep)]
                        dep["skip"] = self.some(draw, t["skippable"] + [
                            f["name"] for f in t["fields"] if f["name"] not in dep["read"]])
        ops = G.history(draw, spec, self.weights, 8)
        for _ in range(draw(ints(1, 4))):
            mi = draw(ints(0, len(spec["models"]) - 1))
            name = pickf(draw, spec["models"][mi]["skippable"])
            vals = {f["name"]: G.value(draw, f) for f in spec["models"][mi]["fields"] if f["name"] == name}
            rels = {} if vals else {name[:-3]: draw(ints(0, 3))}
            ops.append(["update", mi, draw(ints(0, 4)), pickf(draw, ["qs", "raw", "save"]), vals, rels])
        return {"spec": spec, "ops": ops}

    def some(self, draw, names):
        out = []
        for n in names:
            if flag(draw, 2) and n not in out:
                out.append(n)
        return out or list(names)[:1]

    def run(self, case, backend):
        with World(case["spec"]) as w:
            w.install()
            marks = Marks(w)
            d0 = w.dump()
            for op in case["ops"] + [["flush"]]:
                if op[0] == "flush":
                    w.flush_and_check()
                    d0 = w.dump()
                    continue
                before = marks.pending()
                w.apply(op)
                w.check_aggregates("after " + op[0])
                d1 = w.dump()
                got = marks.pending() - before
                may = texts(marks.may(d0, d1)) | marks.nowhere(got, d0, d1)
                changed = marks.changed_columns(d0, d1)
                if any(c and all(x.startswith("s") for x in c) for c in changed.values()):
                    w.bump("skippable change")
                if got - may:
                    raise Violation("skip-ignored", "%s marked %s, only %s may be" % (
                        op[0], sorted(got - may, key=str)[:3], sorted(may, key=str)[:6]))
                d0 = d1
            return {"nontrivial": w.stats.get("skippable change", 0) > 0 and w.stats.get("repaired", 0) > 0,
                    "classes": ["op:" + k for k in w.stats]}


# ---------------------------------------------------------------- rebuilding

def hide(draw, spec):
    """Default managers that hide rows, for models nobody reads through a manager."""
    read = set()
    for mi, m in enumerate(spec["models"]):
        for d in m["denorms"]:
            if d["kind"] in ("count", "sum"):
                read.add(d["owner"])
            if d["kind"] == "m2m":
                read.add(d["to"])
            for dep in d.get("deps", ()):
                rel = S.rel_of(spec, dep)
                if dep["dir"] == "bwd" or rel["kind"] in ("m2m", "gen"):
                    read.add(S.dep_target(spec, dep))
    for mi, m in enumerate(spec["models"]):
        fs = [f["name"] for f in m["fields"] if f["kind"] in ("int", "pint", "bool")]
        linked = any(r["kind"] in ("m2m", "gen") for r in m["rels"]) or \
            any(r["to"] == mi and r["kind"] in ("m2m", "gen") for x in spec["models"] for r in x["rels"])
        if fs and mi not in read and not linked and flag(draw, 3):
            m["filtered_manager"] = pickf(draw, fs)


@register
class C19(Prop):
    id = "C19"

    def case(self, draw, backend):
        b = G.mixed(draw, backend, pks=("auto", "auto", "auto", "char"),
                    features=("text", "text", "count", "sum", "sum", "key", "fk", "m2m"), kinds=G.SIMPLE_KINDS + ["pint", "pint"])
        conditions(draw, b, backend)
        spec = b.finish()
        hide(draw, spec)
        ops = G.history(draw, spec, G.DEFAULT_WEIGHTS, 3)
        corrupt = []
        fields = [(mi, d) for mi, m in enumerate(spec["models"]) for d in m["denorms"] if d["kind"] != "key"]
        for _ in range(draw(ints(1, 4))):
            if fields:
                mi, d = fields[draw(ints(0, len(fields) - 1))]
                corrupt.append([mi, d["name"], draw(ints(0, 3)), draw(ints(0, 3))])
        sel = draw(ints(0, 5))
        mi = draw(ints(0, len(spec["models"]) - 1))
        fs = [d["name"] for d in spec["models"][mi]["denorms"]]
        return {"spec": spec, "ops": ops, "corrupt": corrupt, "absent": flag(draw, 2), "forget": flag(draw, 2),
                "select": [["all"], ["command"], ["app"], ["model", mi], ["label", mi],
                           ["field", mi, pickf(draw, fs)] if fs else ["all"]][sel]}

    def run(self, case, backend):
        import denorm
        from denorm import denorms
        from denorm.models import DirtyInstance
        from django.core.management import call_command
        with World(case["spec"]) as w:
            w.install()
            for op in case["ops"]:
                w.apply(op)
            if case["absent"]:
                denorms.drop_triggers()
            n = sum(self.corrupt(w, *c) for c in case["corrupt"])
            if case["forget"]:
                DirtyInstance.objects.all()._raw_delete("default")
            if case["absent"]:
                w.install()
            stale = w.stale()
            before = w.base_of(w.dump())
            sel = case["select"]
            name = None
            only = None
            if sel[0] == "app":
                name = S.APP

                def only(mi, d):
                    return S.app_of(w.m(mi)) == S.APP
            elif sel[0] != "all" and sel[0] != "command":
                cls = w.m(sel[1])["name"]
                name = cls if sel[0] != "label" else S.label(w.m(sel[1]))

                def only(mi, d):
                    return (mi == sel[1] or sel[0] != "label" and w.m(mi)["name"] == cls) and \
                        (sel[0] != "field" or d["name"] == sel[2])
            try:
                c = Counter(20000)
                loud = bool(case["spec"].get("verbose"))
                with connection.execute_wrapper(c), redirect_stdout(io.StringIO()):
                    if sel[0] == "command":
                        call_command("denorm_rebuild", verbosity=2 if loud else 0)
                    elif sel[0] == "field":
                        denorm.rebuildall(model_name=name, field_name=sel[2], verbose=loud)
                    else:
                        denorm.rebuildall(model_name=name, verbose=loud)
            except Diverged as e:
                raise Violation("rebuild-diverged", str(e))
            except Exception as e:
                raise Violation("rebuild-raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
            where = "after rebuilding " + "/".join(str(x) for x in sel)
            if w.markers():
                raise Violation("markers-left", where)
            dump = w.dump()
            if w.base_of(dump) != before:
                raise Violation("rebuild-changed-base-data", where)
            w.check_callbacks(dump, where, only)
            w.check_aggregates(where, only=only)
            return {"nontrivial": n > 0 and sum(len(t) for t in dump[0]) > 1,
                    "classes": ["select:" + sel[0], "triggers absent" if case["absent"] else "triggers present",
                                "stale" if stale else "not stale"]}

    def corrupt(self, w, mi, name, how, idx):
        """Writes a wrong value straight into the database."""
        d = [x for x in w.m(mi)["denorms"] if x["name"] == name][0]
        cls = w.model(mi)
        pk = w.pick(mi, idx)
        if pk is None:
            return 0
        rows = cls._base_manager.filter(pk=pk) if how % 2 == 0 else cls._base_manager.all()
        if d["kind"] == "m2m":
            t = w.schema.through[(mi, name)]
            f = cls._meta.get_field(name)
            a, c = t._meta.get_field(f.m2m_field_name()).attname, t._meta.get_field(f.m2m_reverse_field_name()).attname
            if how < 2:
                t._base_manager.all().delete()
            else:
                for x in w.pks(d["to"]):
                    if not t._base_manager.filter(**{a: pk, c: x}).exists():
                        t._base_manager.create(**{a: pk, c: x})
            return 1
        if d["kind"] == "fk":
            ps = w.pks(d["to"])
            v = None if how < 2 or not ps else ps[idx % len(ps)]
            rows.update(**{cls._meta.get_field(name).attname: v})
        elif d["kind"] in ("count", "sum"):
            rows.update(**{name: [0, 1, 77, 3][how]})
        else:
            rows.update(**{name: ["", "wrong", "|", "x"][how]})
        return 1
