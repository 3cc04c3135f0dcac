"""Migrations generated from models with denormalised fields."""
import copy

from django.apps import apps
from django.db import DatabaseError, connection
from django.db.migrations.autodetector import MigrationAutodetector
from django.db.migrations.graph import MigrationGraph
from django.db.migrations.questioner import MigrationQuestioner
from django.db.migrations.state import ModelState, ProjectState
from django.db.migrations.writer import MigrationWriter

import gen as G
import schema as S
from gen import flag, pickf
from props import Prop, register
from world import Violation, World

EXTRA = {"text": ["", "verbose", "help"], "count": ["", "verbose", "help", "index"],
         "sum": ["", "verbose", "help"], "key": ["", "verbose", "help", "index"], "cached": ["", "verbose", "help"],
         "fk": ["", "verbose"], "m2m": ["", "verbose"]}
AS_EXTRA = ["index", "index", "blank", "choices"]
OPTIONS = ("null", "blank", "default", "db_index", "unique", "max_length", "choices", "verbose_name", "help_text",
           "db_column", "max_digits", "decimal_places", "primary_key", "serialize")


def without(spec, gone):
    """The same models before the denormalised fields in gone, {(model, name)}, were added."""
    spec = copy.deepcopy(spec)
    names = [{n for i, n in gone if i == mi} for mi in range(len(spec["models"]))]
    for mi, m in enumerate(spec["models"]):
        m["denorms"] = [d for d in m["denorms"] if d["name"] not in names[mi]]
        for d in m["denorms"]:
            if "own" in d:
                d["own"] = [n for n in d["own"] if n not in names[mi]]
            if "skip" in d:
                d["skip"] = [n for n in d["skip"] if n not in names[mi]]
            for dep in d.get("deps", ()):
                dep["read"] = [n for n in dep["read"] if n not in names[S.dep_target(spec, dep)]]
    return spec


def others():
    """The state of everything but the generated models."""
    state = ProjectState()
    for m in apps.get_models(include_swapped=True):
        if m._meta.app_label != S.APP:
            state.add_model(ModelState.from_model(m))
    return state


def tables(w):
    names = [m._meta.db_table for m in w.schema.all_models()] + \
            [t._meta.db_table for t in w.schema.through.values()]
    return sorted(set(names))


def description(w):
    """Columns and constraints of every table."""
    out = {}
    ins = connection.introspection
    with connection.cursor() as cur:
        for t in tables(w):
            try:
                # the display size is about the rows that are there
                cols = sorted(tuple(str(x) for i, x in enumerate(c) if i != 2)
                              for c in ins.get_table_description(cur, t))
                cons = sorted({str((tuple(c["columns"]) if c["columns"] else None, bool(c["primary_key"]),
                                    bool(c["unique"]), bool(c["foreign_key"]), c["foreign_key"], bool(c["check"])))
                               for c in ins.get_constraints(cur, t).values()})
                # whether a foreign key gets one index or two is up to Django
                keys = {c.split(", False, False, True")[0] for c in cons if ", False, False, True" in c}
                cons = [c for c in cons if c.split(", False, False, False")[0] not in keys]
            except DatabaseError as e:
                cols, cons = ["no such table: %s" % str(e)[:80]], []
            out[t] = (cols, cons)
    return out


@register
class C27(Prop):
    id = "C27"

    def case(self, draw, backend):
        b = G.mixed(draw, backend, features=("text", "text", "count", "sum", "key", "fk", "m2m"), nfeatures=(1, 5),
                    pks=("auto", "auto", "uuid", "char"))
        for mi, m in enumerate(b.spec["models"]):
            if flag(draw, 4):
                m["denorms"].append({"kind": "cached", "name": b.fresh("d"), "deps": [],
                                     "own": [f["name"] for f in m["fields"] if f["kind"] != "auto_now"]})
                if not G.settles(b.spec):
                    m["denorms"].pop()
        if flag(draw, 3):
            for m in b.spec["models"]:
                for d in m["denorms"]:
                    if d["kind"] != "m2m" and flag(draw, 3):
                        d["column"] = "col_" + d["name"]
        for m in b.spec["models"]:
            for d in m["denorms"]:
                if d["kind"] == "text" and flag(draw, 2):
                    d["as"] = pickf(draw, sorted(S.COMPUTED))
                    d["null"], d["nulldef"] = flag(draw, 3), flag(draw, 2)
                if flag(draw, 4):
                    d["extra"] = pickf(draw, EXTRA[d["kind"]] + (AS_EXTRA if d.get("as", "text") != "text" else []))
        spec = b.finish()
        gone = []
        if flag(draw, 2):
            gone = [[mi, d["name"]] for mi, m in enumerate(spec["models"]) for d in m["denorms"] if flag(draw, 2)]
        weights = {k: v for k, v in G.DEFAULT_WEIGHTS.items() if k not in ("hold", "save_held", "txn", "flush")}
        first = without(spec, {tuple(x) for x in gone})
        return {"spec": spec, "gone": gone, "back": flag(draw, 3),
                # the size of lines and crowds must suit the fields that are added later
                "ops0": [o for o in G.history(draw, first, None, 3) if o[0] not in ("line", "many")] if gone else [],
                "ops": G.history(draw, spec, None, 4, prelude=not gone),
                "hist": [G.one_op(draw, spec, weights) for _ in range(draw(G.ints(0, 4)))]}

    def run(self, case, backend):
        classes = set()
        with World(case["spec"]) as w:
            direct = description(w)
            w.schema.drop_tables()
            state = others()
            if case["gone"]:
                w.redefine(without(case["spec"], {tuple(x) for x in case["gone"]}))
                state, _ = self.migrate(w, state, "0001_initial")
                w.install()
                for op in case["ops0"]:
                    w.apply(op)
                w.redefine(case["spec"])
                before, old = w_rows(), state
                state, m = self.migrate(w, state, "0002_more")
                if case["back"] and m is not None:
                    self.apply(m, old, back=True)
                    state = self.apply(m, old)
                    classes.add("backwards")
                self.same(before, w_rows(), "after adding fields")
                classes.add("evolved")
            else:
                state, _ = self.migrate(w, state, "0001_initial")
            found = description(w)
            if found != direct:
                t = [t for t in direct if direct[t] != found[t]][0]
                raise Violation("tables-differ", "%s migrated %r, directly %r" % (
                    t, [x for p in (0, 1) for x in found[t][p] if x not in direct[t][p]],
                    [x for p in (0, 1) for x in direct[t][p] if x not in found[t][p]]))
            for mi, m in enumerate(w.spec["models"]):
                old = state.apps.get_model(S.APP, m["name"])._meta
                for d in m["denorms"]:
                    a, b = old.get_field(d["name"]), w.model(mi)._meta.get_field(d["name"])
                    for o in OPTIONS:
                        if getattr(a, o, None) != getattr(b, o, None):
                            raise Violation("option-lost", "%s.%s has %s=%r in migrations, %r in the model" % (
                                m["name"], d["name"], o, getattr(a, o, None), getattr(b, o, None)))
            left = self.changes(w, state)
            if left:
                raise Violation("not-settled", "a second run finds %s" % [str(o)[:200] for m in left for o in m.operations])
            w.install()
            if case["gone"]:
                import denorm
                try:
                    denorm.rebuildall()
                except Exception as e:
                    raise Violation("rebuild-raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
                dump = w.dump()
                w.check_callbacks(dump, "after rebuilding")
                w.check_aggregates("after rebuilding")
            for op in case["ops"]:
                if op[0] == "flush":
                    w.flush_and_check()
                else:
                    w.apply(op)
            w.flush_and_check("after the flush")
            self.historical(w, state, case["hist"])
            w.flush_and_check("after writes through historical models")
            classes.update("denorm:" + d["kind"] for m in w.spec["models"] for d in m["denorms"])
            return {"nontrivial": w.stats.get("repaired", 0) > 0, "classes": sorted(classes)}

    # ------------------------------------------------------------ migrations

    def changes(self, w, state):
        try:
            found = MigrationAutodetector(state, ProjectState.from_apps(apps), MigrationQuestioner(specified_apps={S.APP})).changes(
                graph=MigrationGraph(), trim_to_apps={S.APP})
        except Exception as e:
            raise Violation("detecting-raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
        return found.get(S.APP, [])

    def migrate(self, w, state, name):
        """Generates migrations to the current models, writes, loads and applies them."""
        last = None
        found = self.changes(w, state)
        for i, m in enumerate(found):
            m.dependencies = []
            try:
                source = MigrationWriter(m).as_string()
                names = {"__name__": "generated"}
                exec(compile(source, "<%s>" % name, "exec"), names)
                last = names["Migration"]("%s_%d" % (name, i), S.APP)
            except Exception as e:
                raise Violation("writing-raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
            state = self.apply(last, state)
        return state, last if len(found) == 1 else None

    def apply(self, migration, state, back=False):
        state = state.clone()
        if connection.vendor == "sqlite":
            # or this version of Django makes foreign keys point to a table it then drops
            connection.cursor().execute("PRAGMA legacy_alter_table = ON")
        try:
            with connection.schema_editor(atomic=migration.atomic) as ed:
                return (migration.unapply if back else migration.apply)(state, ed)
        except Exception as e:
            raise Violation("migrating-raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
        finally:
            if connection.vendor == "sqlite":
                connection.cursor().execute("PRAGMA legacy_alter_table = OFF")

    def same(self, a, b, where):
        lost = [t for t in a if t not in b or [r for r in a[t] if not any(r.items() <= x.items() for x in b[t])]]
        if lost:
            raise Violation("rows-changed", "%s: %s" % (where, lost))

    # ------------------------------------------------------------ data migrations

    def historical(self, w, state, ops):
        """Loads, saves and writes rows as a data migration does."""
        models, through = w.schema.models, w.schema.through
        olds = [state.apps.get_model(S.APP, m["name"]) for m in w.spec["models"]]
        before = w.dump()
        for mi, cls in enumerate(olds):
            try:
                for obj in cls._base_manager.all():
                    obj.save()
            except Exception as e:
                raise Violation("historical-raised", "loading and saving: %s: %s" % (type(e).__name__, str(e)[:300]))
        volatile = {(mi, n) for mi, m in enumerate(w.spec["models"]) for n in
                    [d["name"] for d in m["denorms"] if d["kind"] in ("key", "cached")] +
                    [f["name"] for f in m["fields"] if f["kind"] == "auto_now"]}
        rows, links = w.diff(before, w.dump(), volatile)
        if rows or links:
            raise Violation("historical-changed", "saving unchanged rows changed %s %s" % (sorted(rows, key=str)[:3], sorted(links, key=str)[:3]))
        w.schema.models = olds
        w.schema.through = {k: olds[k[0]]._meta.get_field(k[1]).remote_field.through for k in through}
        try:
            for op in ops:
                w.apply(op)
        finally:
            w.schema.models, w.schema.through = models, through


def w_rows():
    """{table: rows as dicts} of the generated models' tables."""
    out = {}
    with connection.cursor() as cur:
        for t in connection.introspection.table_names(cur):
            if t.startswith(S.APP + "_"):
                cur.execute("SELECT * FROM %s" % connection.ops.quote_name(t))
                names = [c[0] for c in cur.description]
                out[t] = [{n: str(v) for n, v in zip(names, r)} for r in cur.fetchall()]
    return out
