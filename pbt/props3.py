"""Properties about triggers as a whole, declarations, names, saves, commands, concurrency and migrations."""
import copy
import io

from django.core.management import call_command
from django.db import OperationalError, connection, connections, transaction

import gen as G
import schema as S
from gen import Builder, flag, ints, pickf
from props import FlushProp, Prop, conditions, register
from props2 import Fault, fresh_connection, has
from world import Violation, World, catalogue, drop_all_triggers, trigger_names


# ---------------------------------------------------------------- installing and dropping triggers

USER_NAMES = ["my_trigger", "denormalise_log", "denorm1after", "DENORMx", "xdenorm_after", "denorm", "Denorm Log"]
EVENTS = ["INSERT", "UPDATE", "DELETE"]


def user_trigger(conn, name, table, event):
    qn = conn.ops.quote_name
    cur = conn.cursor()
    if conn.vendor == "postgresql":
        cur.execute("CREATE OR REPLACE FUNCTION user_noop() RETURNS TRIGGER AS $$ BEGIN RETURN NULL; END; $$ LANGUAGE plpgsql")
        cur.execute("CREATE TRIGGER %s AFTER %s ON %s FOR EACH ROW EXECUTE PROCEDURE user_noop()" % (
            qn(name), event, qn(table)))
    elif conn.vendor == "mysql":
        cur.execute("CREATE TRIGGER %s AFTER %s ON %s FOR EACH ROW SET @user_noop = 1" % (qn(name), event, qn(table)))
    else:
        cur.execute("CREATE TRIGGER %s AFTER %s ON %s BEGIN SELECT 1; END" % (qn(name), event, qn(table)))


def ours(cat):
    """The part of a catalogue that belongs to denorm; names that are made up at random compare by their beginning."""
    out = []
    for (name, table), text in cat.items():
        if name.startswith("denorm_"):
            out.append((name[:45] if connection.vendor == "mysql" else name, table, text))
    return sorted(out)


def theirs(cat):
    return {k: v for k, v in cat.items() if not k[0].startswith("denorm_")}


def catalogue_diff(a, b):
    a, b = [x[:2] for x in a], [x[:2] for x in b]
    return "missing %r, unexpected %r" % ([x for x in b if x not in a][:2], [x for x in a if x not in b][:2])


def vary(draw, spec):
    """The same tables with other declarations: dependencies removed, skip lists added."""
    spec = copy.deepcopy(spec)
    for m in spec["models"]:
        for d in m["denorms"]:
            if d["kind"] in ("text", "key") and d["deps"] and flag(draw, 2):
                d["deps"] = d["deps"][1:]
            if d["kind"] == "text" and m["fields"] and flag(draw, 3):
                d["skip"] = [m["fields"][0]["name"]]
                d["own"] = [x for x in d["own"] if x != m["fields"][0]["name"]]
    return spec


@register
class C20(Prop):
    id = "C20"
    weights = dict(G.DEFAULT_WEIGHTS, flush=1)

    def case(self, draw, backend):
        b = G.mixed(draw, backend, nfeatures=(1, 4), generic_in=3)
        if flag(draw, 4):
            # names longer than what a database allows for a trigger
            for m in b.spec["models"]:
                m["table"] = pickf(draw, ["gen_a_rather_long_name_of_a_table_%s", "long_" * 7 + "%s"]) % m["name"].lower()
        spec = b.finish()
        steps = []
        for _ in range(draw(ints(2, 7))):
            k = pickf(draw, ["install", "install", "install", "drop", "user", "user", "redefine", "write", "write", "fault",
                             "rollback"])
            db = "other" if flag(draw, 3) else "default"
            if k in ("install", "drop"):
                steps.append([k, db, flag(draw, 2)])
            elif k == "user":
                steps.append([k, db, pickf(draw, USER_NAMES), draw(ints(0, 2)), pickf(draw, EVENTS)])
            elif k == "redefine":
                steps.append([k])
            elif k == "write":
                steps.append([k, [G.one_op(draw, spec, {k: w for k, w in self.weights.items() if k not in ("m2m", "flush", "txn")})
                                  for _ in range(draw(ints(1, 4)))]])
            elif k == "fault":
                steps.append([k, db, pickf(draw, ["install", "drop"]), draw(ints(1, 6))])
            else:
                steps.append([k, db, pickf(draw, ["install", "drop"])])
        return {"spec": spec, "spec2": vary(draw, spec), "steps": steps, "ops": G.history(draw, spec, None, 2)}

    def run(self, case, backend):
        from denorm import denorms
        with World(case["spec"]) as w:
            try:
                w.schema.create_tables("other")
                fresh = []
                for spec in (case["spec2"], case["spec"]):
                    w.redefine(spec)
                    w.install()
                    fresh.insert(0, ours(catalogue(connection)))
                    drop_all_triggers(connection)
                return self.steps(w, case, fresh, denorms)
            finally:
                other = connections["other"]
                drop_all_triggers(other)
                w.schema.drop_tables("other")

    def steps(self, w, case, fresh, denorms):
        which = 0
        have = {"default": [], "other": []}
        users = {"default": {}, "other": {}}
        seen = set()
        steps = case["steps"] + [["install", "default", False], ["write", case["ops"]]]
        for step in steps:
            k = step[0]
            data = w.everything()
            if k in ("install", "drop"):
                db = step[1]
                self.call(denorms, k, db, step[2])
                have[db] = fresh[which] if k == "install" else []
                seen.add(k + ("+again" if k == "install" and k in seen else ""))
            elif k == "user":
                db, name = step[1], step[2]
                table = w.model(step[3] % len(w.spec["models"]))._meta.db_table
                taken = {n.lower() for n, t in trigger_names(connections[db])}
                if name.lower() in taken:
                    continue
                user_trigger(connections[db], name, table, step[4])
                users[db] = theirs(catalogue(connections[db]))
                seen.add("user")
            elif k == "redefine":
                which = 1 - which
                w.redefine(case["spec2"] if which else case["spec"])
                seen.add("redefine")
                # values computed by the other definitions are none of the triggers' business
                self.repair(w)
                data = w.everything()
            elif k == "write":
                tracked = have["default"] == fresh[which]
                for op in step[1]:
                    if op[0] == "flush":
                        if tracked:
                            w.flush_and_check()
                    else:
                        w.apply(op)
                if tracked:
                    w.flush_and_check("with the triggers installed")
                    seen.add("tracked write")
                elif not have["default"] and w.markers():
                    raise Violation("dropped-but-marking", "rows get marked without triggers")
                if not tracked:
                    # make everything current by hand, for the next steps
                    self.repair(w)
                continue
            elif k == "fault":
                db = step[1]
                before = catalogue(connections[db])
                if self.faulty(denorms, step[2], db, step[3]):
                    if not connections[db].features.can_rollback_ddl:
                        # half done at worst; doing it again completes it
                        self.call(denorms, step[2], db, False)
                        have[db] = fresh[which] if step[2] == "install" else []
                    elif catalogue(connections[db]) != before:
                        raise Violation("half-done", "%s failed at statement %d and left %s" % (
                            step[2], step[3], catalogue_diff(ours(catalogue(connections[db])), ours(before))))
                    seen.add("fault")
                else:
                    have[db] = fresh[which] if step[2] == "install" else []
            elif k == "rollback":
                db = step[1]
                if not connections[db].features.can_rollback_ddl:
                    continue
                try:
                    with transaction.atomic(using=db):
                        self.call(denorms, step[2], db, False)
                        raise Undo()
                except Undo:
                    pass
                seen.add("rollback")
            for db in ("default", "other"):
                cat = catalogue(connections[db])
                if theirs(cat) != users[db]:
                    raise Violation("user-trigger-lost", "%s on %s: %r, must be %r" % (
                        k, db, sorted(theirs(cat)), sorted(users[db])))
                if ours(cat) != have[db]:
                    raise Violation("wrong-triggers", "after %s on %s: %s" % (
                        "/".join(str(x) for x in step), db, catalogue_diff(ours(cat), have[db])))
            if w.everything() != data:
                raise Violation("data-changed", "%s changed data" % k)
        return {"nontrivial": bool(fresh[0]) and len(seen & {"user", "redefine", "fault", "install+again", "rollback", "drop"}) > 1
                and "tracked write" in seen,
                "classes": sorted("step:" + s for s in seen)}

    def repair(self, w):
        import denorm
        from denorm.models import DirtyInstance
        for mi in range(len(w.spec["models"])):
            for pk in w.pks(mi):
                DirtyInstance(content_type_id=w.ct_id(mi), object_id=pk).save()
        for mi, m in enumerate(w.spec["models"]):
            for d in m["denorms"]:
                if d["kind"] in ("count", "sum"):
                    for pk in w.pks(mi):
                        w.model(mi)._base_manager.filter(pk=pk).update(**{d["name"]: w.aggregate(mi, pk, d)})
        w.flush()

    def call(self, denorms, what, db, command):
        try:
            if command:
                call_command("denorm_init" if what == "install" else "denorm_drop", database=db, verbosity=0)
            elif what == "install":
                denorms.install_triggers(**({} if db == "default" else {"using": db}))
            else:
                denorms.drop_triggers(**({} if db == "default" else {"using": db}))
        except Exception as e:
            raise Violation(what + "-raised", "%s: %s" % (type(e).__name__, str(e)[:300]))

    def faulty(self, denorms, what, db, k):
        """Runs it with a failing k-th statement; False when it took fewer statements."""
        f = Fault(k, "before")
        conn = connections[db]
        try:
            with conn.execute_wrapper(f):
                if what == "install":
                    denorms.install_triggers(using=db)
                else:
                    denorms.drop_triggers(using=db)
        except OperationalError:
            if not f.hit:
                raise
        except Exception as e:
            if not f.hit:
                raise Violation(what + "-raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
        return f.hit


class Undo(Exception):
    pass


# ---------------------------------------------------------------- printed SQL

@register
class C21(Prop):
    id = "C21"

    def case(self, draw, backend):
        b = G.mixed(draw, backend, nfeatures=(1, 4), generic_in=3, kinds=G.ALL_KINDS)
        conditions(draw, b, backend)
        spec = b.finish()
        return {"spec": spec, "ops": G.history(draw, spec, None, 6), "color": flag(draw, 2)}

    def run(self, case, backend):
        from contextlib import redirect_stdout
        with World(case["spec"]) as w:
            w.install()
            want = ours(catalogue(connection))
            drop_all_triggers(connection)
            d0 = w.everything()
            out, out2 = io.StringIO(), io.StringIO()
            try:
                with redirect_stdout(out):
                    call_command("denorm_sql", stdout=out2, verbosity=0)
            except Exception as e:
                raise Violation("sql-raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
            if catalogue(connection) or w.everything() != d0:
                raise Violation("printing-changed-database", "denorm_sql touched the database")
            text = out.getvalue() + out2.getvalue()
            try:
                self.execute(text)
            except Exception as e:
                raise Violation("printed-sql-fails", "%s: %s" % (type(e).__name__, str(e)[:300]))
            got = ours(catalogue(connection))
            if squeeze(got) != squeeze(want):
                raise Violation("printed-sql-differs", catalogue_diff(got, want) if [x[:2] for x in got] != [x[:2] for x in want]
                                else "%r, installed %r" % [(a[2], b[2]) for a, b in zip(got, want) if a != b][0])
            for op in case["ops"]:
                if op[0] == "flush":
                    w.flush_and_check()
                else:
                    w.apply(op)
                w.check_aggregates("after " + op[0])
            w.flush_and_check("after the final flush")
            return {"nontrivial": bool(want) and has(case["spec"], "count", "sum", "text"),
                    "classes": ["denorm:" + d["kind"] + ("+where" if d.get("filter") or d.get("exclude") else "")
                                for m in case["spec"]["models"] for d in m["denorms"]]}

    def execute(self, text):
        """Feeds printed SQL to the database as its command line client would."""
        cur = connection.cursor()
        if connection.vendor == "sqlite":
            connection.connection.executescript(text)
        elif connection.vendor == "postgresql":
            if text.strip():
                cur.cursor.execute(text)
        else:
            parts = text.split("CREATE TRIGGER")
            for p in parts[1:]:
                connection.connection.cursor().execute(("CREATE TRIGGER" + p).strip())


def squeeze(cat):
    return [(n, t, " ".join(x.split())) for n, t, x in cat]
