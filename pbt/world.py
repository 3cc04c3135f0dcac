"""A live schema in a real database: applies generated operations and computes,
from the stored base data alone, what every denormalised value must be."""
import io
import uuid
from contextlib import redirect_stdout

from django.contrib.contenttypes.fields import GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.db import DatabaseError, OperationalError, connection, connections, transaction
from django.db.models import F

import denorm
from denorm import denorms

import schema as S


class NoTables(Exception):
    """Django itself can not create the tables of the models."""


class Violation(Exception):
    """The code under test broke the property."""

    def __init__(self, kind, detail):
        super(Violation, self).__init__("%s: %s" % (kind, detail))
        self.kind = kind
        self.detail = detail


class Rollback(Exception):
    pass


class Diverged(Exception):
    pass


FLUSH_STATEMENT_LIMIT = 30000


class Counter(object):
    """execute_wrapper that counts statements and stops a flush that does not end."""

    def __init__(self, limit=None):
        self.n = 0
        self.limit = limit

    def __call__(self, execute, sql, params, many, context):
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            raise Diverged("more than %d statements" % self.limit)
        return execute(sql, params, many, context)


class Interleave(object):
    """execute_wrapper: before statement k of this connection, another connection does something and commits."""

    def __init__(self, world, k, other, limit=None):
        self.world, self.k, self.other = world, k, other
        self.n = 0
        self.done = False
        self.blocked = False
        self.limit = limit

    def __call__(self, execute, sql, params, many, context):
        self.n += 1
        if self.limit is not None and self.n > self.limit:
            raise Diverged("more than %d statements" % self.limit)
        if self.n == self.k and not self.done and not self.blocked:
            self.go()
        return execute(sql, params, many, context)

    def go(self):
        short_lock_wait(connections["second"])
        after, self.world.after = self.world.after, None
        try:
            with transaction.atomic(using="second"):
                # as a whole or, when something is locked, not at all
                self.done = bool(self.world.apply(self.other, using="second"))
        except Violation as e:
            if not is_lock_error(e.detail):
                raise
            self.blocked = True
            self.done = False
        except OperationalError as e:
            if not is_lock_error(str(e)):
                raise
            self.blocked = True
            self.done = False
        finally:
            self.world.after = after


def short_lock_wait(conn):
    if conn.vendor == "postgresql":
        conn.cursor().execute("SET lock_timeout = '20ms'")
    elif conn.vendor == "mysql":
        conn.cursor().execute("SET SESSION innodb_lock_wait_timeout = 0")
    else:
        conn.cursor().execute("PRAGMA busy_timeout = 5")


def is_lock_error(text):
    return any(x in text for x in ("Lock wait timeout", "lock timeout", "Deadlock", "deadlock", "database is locked"))


class World(object):
    def __init__(self, spec):
        self.spec = spec
        self.schema = S.Schema(spec)
        self.held = {}
        self.serial = 0
        self.given = {}         # (model, database) -> values of the unique column used so far
        self.stats = {}
        self.saved = []         # (model, pk) of rows the last operation saved through the ORM
        self.check_rollback = False
        self.after = None       # called after every operation, also inside transactions

    # ------------------------------------------------------------ life cycle

    def __enter__(self):
        try:
            try:
                self.schema.define()
            except Exception as e:
                raise Violation("declaration-raised", "%s: %s" % (type(e).__name__, str(e)[:400]))
            try:
                self.schema.create_tables()
            except DatabaseError as e:
                raise NoTables(str(e)) from e
        except BaseException:
            self.close()
            raise
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        conn = connection
        if conn.in_atomic_block or conn.needs_rollback:
            conn.close()
        if not conn.get_autocommit():
            conn.close()
        try:
            denorms.drop_triggers()
        except Exception:
            pass
        drop_all_triggers(conn)
        self.schema.drop_tables()
        cur = conn.cursor()
        cur.execute("DELETE FROM denorm_dirtyinstance")
        cur.execute("DELETE FROM django_content_type WHERE app_label IN ('gen', 'gen2')")
        self.schema.undefine()

    def install(self):
        try:
            denorms.install_triggers()
        except Exception as e:
            raise Violation("install-raised", "%s: %s" % (type(e).__name__, e))
        if any(m.get("generic") for m in self.spec["models"]):
            # as migrate does; one made first in a transaction that is rolled
            # back would stay in Django's cache of content types
            for mi in range(len(self.spec["models"])):
                ContentType.objects.get_for_model(self.model(mi))

    def redefine(self, spec):
        """Other declarations for the same tables."""
        self.schema.undefine()
        self.spec = spec
        self.schema = S.Schema(spec)
        try:
            self.schema.define()
        except Exception as e:
            raise Violation("declaration-raised", "%s: %s" % (type(e).__name__, str(e)[:400]))

    # ------------------------------------------------------------ access

    def model(self, mi):
        return self.schema.models[mi]

    def m(self, mi):
        return self.spec["models"][mi]

    def pks(self, mi, using="default"):
        ps = list(self.model(mi)._base_manager.using(using).values_list("pk", flat=True))
        return sorted(ps, key=lambda p: (isinstance(p, str), str(p) if not isinstance(p, int) else "", p if isinstance(p, int) else 0))

    def pick(self, mi, idx, using="default"):
        ps = self.pks(mi, using)
        return ps[idx % len(ps)] if ps else None

    def kinds(self, mi):
        return {f["name"]: f["kind"] for f in self.m(mi)["fields"]}

    def bump(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    # ------------------------------------------------------------ resolving generated arguments

    def new_pk(self, mi):
        kind = self.m(mi)["pk"]
        self.serial += 1
        if kind == "char":
            names = ["k%d", "Key %d", "k'%d", "é%d"]
            if connection.vendor != "mysql" and self.serial % 3 == 0:
                # differs from the one before in case only
                return names[(self.serial - 1) % 4].upper().replace("%D", "%d") % (self.serial - 1)
            return names[self.serial % 4] % self.serial
        if kind == "int":
            return self.serial * 3
        if kind == "big":
            return 5000000000 + self.serial
        if kind == "uuid":
            return uuid.UUID(int=self.serial * 7919 + (1 << 100))
        return None

    def new_key(self, mi, using="default"):
        """A value for the unique column, often one that is the primary key of another row."""
        kind = self.m(mi)["ukey"]["kind"]
        have = self.given.setdefault((mi, using), set())
        n = 1 + (len(have) * 5) % 7
        for n in range(n, n + len(have) + 1):
            v = {"int": n, "big": n, "char": "k%d" % n, "uuid": uuid.UUID(int=n)}[kind]
            if v not in have:
                have.add(v)
                return v

    def values(self, mi, vals):
        kinds = self.kinds(mi)
        return {n: S.decode(kinds[n], v) for n, v in vals.items() if n in kinds}

    def rel(self, mi, name):
        for r in self.m(mi)["rels"]:
            if r["name"] == name:
                return r
        return None

    def rel_keys(self, r, using="default"):
        """{pk: what a foreign key to that row contains}"""
        cls = self.model(r["to"])
        att = self.m(r["to"])["ukey"]["name"] if r.get("tf") else "pk"
        return dict(cls._base_manager.using(using).values_list("pk", att))

    def rel_values(self, mi, rels, row_pk=None, creating=False, using="default"):
        """{rel attname: key} for the generated {rel name: index | None}; None when impossible."""
        out = {}
        for r in self.m(mi)["rels"]:
            if r["kind"] not in ("fk", "o2o"):
                continue
            if r["name"] not in rels:
                if not creating:
                    continue
                idx = None if r.get("null") else 0
            else:
                idx = rels[r["name"]]
            att = self.model(mi)._meta.get_field(r["name"]).attname
            if idx is None and r.get("null"):
                out[att] = None
                continue
            ps = self.pks(r["to"], using)
            keys = self.rel_keys(r, using) if r.get("tf") else {p: p for p in ps}
            if r["kind"] == "o2o":
                taken = set(self.model(mi)._base_manager.using(using).exclude(pk=row_pk)
                            .exclude(**{att: None}).values_list(att, flat=True))
                ps = [p for p in ps if keys[p] not in taken]
            if r["to"] == mi:
                ps = [p for p in ps if not self.would_cycle(mi, r, row_pk, p, using)]
            if not ps:
                if r.get("null"):
                    out[att] = None
                    continue
                return None
            out[att] = keys[ps[(idx or 0) % len(ps)]]
        return out

    def would_cycle(self, mi, r, row_pk, target, using="default"):
        """Would row_pk -> target close a loop through the model's self relations?"""
        if row_pk is None:
            return False
        if target == row_pk:
            return True
        atts = [x["name"] + "__pk" for x in self.m(mi)["rels"]
                if x["to"] == mi and x["kind"] in ("fk", "o2o")]
        edges = {}
        for row in self.model(mi)._base_manager.using(using).values("pk", *atts):
            edges[row["pk"]] = [row[a] for a in atts if row[a] is not None]
        seen, todo = set(), [target]
        while todo:
            p = todo.pop()
            if p == row_pk:
                return True
            if p in seen:
                continue
            seen.add(p)
            todo.extend(edges.get(p, ()))
        return False

    def gen_target(self, mi, where, using="default"):
        """(content_type_id, object_id) of a tag's target: where = [choice of model, index]."""
        owners = [i for i, m in enumerate(self.spec["models"]) for r in m["rels"]
                  if r["kind"] == "gen" and r["to"] == mi]
        owners = sorted(set(owners))
        if not owners:
            return None
        # also point at rows that do not exist, and at models that declare no relation
        oi = owners[where[0] % len(owners)]
        ps = self.pks(oi, using)
        if not ps:
            return None
        ct = ContentType.objects.get_for_model(self.model(oi))
        return ct.pk, ps[where[1] % len(ps)]

    def full_values(self, mi, vals, rels, where, creating, row_pk=None, using="default"):
        out = self.values(mi, vals)
        if creating:
            for f in self.m(mi)["fields"]:
                if f["name"] not in out and f["kind"] != "auto_now":
                    out[f["name"]] = None if f.get("null") else S.decode(f["kind"], default_value(f["kind"]))
            if self.m(mi).get("ukey"):
                out[self.m(mi)["ukey"]["name"]] = self.new_key(mi, using)
        rv = self.rel_values(mi, rels, row_pk, creating, using)
        if rv is None:
            return None
        out.update(rv)
        if self.m(mi).get("generic") and (creating or where is not None):
            t = self.gen_target(mi, where or [0, 0], using)
            if t is None:
                if creating:
                    return None
            else:
                a, b = S.generic_attrs(self.m(mi))
                out[a], out[b] = t
        return out

    # ------------------------------------------------------------ operations

    def apply(self, op, using="default"):
        """Runs one generated operation.  An exception out of a valid write is a violation."""
        if op[0] != "txn":
            self.saved = []
        try:
            did = getattr(self, "op_" + op[0])(*op[1:], using=using)
        except (Violation, Rollback, Diverged):
            raise
        except HarnessError:
            raise
        except Exception as e:
            raise Violation("operation-raised", "%s raised %s: %s" % (op[0], type(e).__name__, str(e)[:400]))
        self.bump(op[0] if did else "skipped")
        if did and self.after is not None:
            self.after(op)
        return did

    def op_create(self, mi, via, vals, rels, where=None, using="default"):
        v = self.full_values(mi, vals, rels, where, True, using=using)
        if v is None:
            return False
        cls = self.model(mi)
        pk = self.new_pk(mi)
        if pk is not None:
            v["pk"] = pk
        if via in ("save", "create") and using != "default":
            # related objects are looked up where the instance comes from
            o = cls(**v)
            o._state.db = using
            o.save(using=using, force_insert=via == "create")
        elif via == "save":
            cls(**v).save()
        elif via == "create":
            cls._base_manager.create(**v)
        elif via == "bulk":
            cls._base_manager.using(using).bulk_create([cls(**v)])
        elif via == "raw":
            self.raw_insert(mi, v, using)
        elif via == "fixture":
            cls(**v).save_base(raw=True, using=using)
        else:
            raise AssertionError(via)
        return True

    def op_line(self, mi, rel, n, vals, using="default"):
        """n rows, each related to the one before."""
        done = 0
        for _ in range(n):
            done += self.op_create(mi, "create", vals, {rel: -1}, using=using)
        return done > 1

    def op_many(self, mi, n, vals, rels, where=None, using="default"):
        """n rows in one statement."""
        rows = []
        for _ in range(n):
            v = self.full_values(mi, vals, rels, where, True, using=using)
            if v is None:
                return False
            pk = self.new_pk(mi)
            if pk is not None:
                v["pk"] = pk
            rows.append(self.model(mi)(**v))
        self.model(mi)._base_manager.using(using).bulk_create(rows)
        return True

    def columns(self, mi, v):
        """attname dict -> [(column, db value)]"""
        meta = self.model(mi)._meta
        conn = connections["default"]
        out = []
        for f in meta.concrete_fields:
            key = f.attname
            if f.primary_key and "pk" in v:
                val = v["pk"]
            elif key in v:
                val = v[key]
            else:
                continue
            out.append((f, f.get_db_prep_save(val, conn)))
        return out

    def raw_insert(self, mi, v, using):
        """INSERT by hand, with the columns' model defaults for everything derived."""
        meta = self.model(mi)._meta.concrete_model._meta
        conn = connections[using]
        qn = conn.ops.quote_name
        cols = self.columns(mi, v)
        have = {f for f, _ in cols}
        for f in meta.concrete_fields:
            if f in have or (f.primary_key and f is meta.auto_field):
                continue
            if f.get_internal_type() == "DateTimeField" and getattr(f, "auto_now", False):
                import datetime
                cols.append((f, f.get_db_prep_save(datetime.datetime(2001, 1, 1), conn)))
            else:
                cols.append((f, f.get_db_prep_save(f.get_default(), conn)))
        if not cols:
            self.model(mi)(**v).save(using=using)
            return
        sql = "INSERT INTO %s (%s) VALUES (%s)" % (
            qn(meta.db_table), ", ".join(qn(f.column) for f, _ in cols), ", ".join(["%s"] * len(cols)))
        conn.cursor().execute(sql, [p for _, p in cols])

    def op_update(self, mi, idx, via, vals, rels, where=None, using="default"):
        pk = self.pick(mi, idx, using)
        if pk is None:
            return False
        v = self.full_values(mi, vals, rels, where, False, row_pk=pk, using=using)
        if not v:
            return False
        cls = self.model(mi)
        if via in ("save", "update_fields", "select_related"):
            qs = cls._base_manager.using(using)
            if via == "select_related":
                qs = qs.select_related()
            o = qs.get(pk=pk)
            for k, x in v.items():
                setattr(o, k, x)
            if via != "update_fields":
                self.saved.append((mi, pk))
            if via == "update_fields":
                o.save(using=using, update_fields=[f.name for f in cls._meta.concrete_fields if f.attname in v])
            else:
                o.save(using=using)
        elif via == "qs":
            names = {f.attname: f.name for f in cls._meta.concrete_fields}
            cls._base_manager.using(using).filter(pk=pk).update(**{names[k]: x for k, x in v.items()})
        elif via == "raw":
            conn = connections[using]
            qn = conn.ops.quote_name
            cols = self.columns(mi, v)
            sql = "UPDATE %s SET %s WHERE %s = %%s" % (
                qn(cls._meta.db_table), ", ".join("%s = %%s" % qn(f.column) for f, _ in cols),
                qn(cls._meta.pk.column))
            conn.cursor().execute(sql, [p for _, p in cols] + [cls._meta.pk.get_db_prep_value(pk, conn)])
        elif via == "fixture":
            o = cls._base_manager.using(using).get(pk=pk)
            for k, x in v.items():
                setattr(o, k, x)
            o.save_base(raw=True, using=using)
        else:
            raise AssertionError(via)
        return True

    def op_bulk(self, mi, vals, rels, lo, n, using="default"):
        """One UPDATE statement over several rows."""
        ps = self.pks(mi, using)
        if not ps:
            return False
        chosen = [ps[(lo + i) % len(ps)] for i in range(min(n, len(ps)))]
        v = self.values(mi, vals)
        for r in self.m(mi)["rels"]:
            if r["kind"] == "fk" and r["name"] in rels and r["to"] != mi:
                att = self.model(mi)._meta.get_field(r["name"]).name
                rv = self.rel_values(mi, {r["name"]: rels[r["name"]]}, using=using)
                if rv is None:
                    continue
                v[att] = list(rv.values())[0]
        if not v:
            return False
        self.model(mi)._base_manager.using(using).filter(pk__in=chosen).update(**v)
        return True

    def op_bulkset(self, mi, vals, using="default"):
        """UPDATE of the whole table."""
        v = self.values(mi, vals)
        if not v:
            return False
        self.model(mi)._base_manager.using(using).all().update(**v)
        return True

    def op_incr(self, mi, name, by, using="default"):
        """UPDATE with an expression."""
        if not self.model(mi)._base_manager.using(using).exists():
            return False
        self.model(mi)._base_manager.using(using).filter(**{name + "__lt": 1000}).update(**{name: F(name) + by})
        return True

    def op_touch(self, mi, idx, via, using="default"):
        """A write that changes nothing."""
        pk = self.pick(mi, idx, using)
        if pk is None:
            return False
        cls = self.model(mi)
        if via == "save":
            self.saved.append((mi, pk))
            cls._base_manager.using(using).get(pk=pk).save(using=using)
        else:
            row = cls._base_manager.using(using).filter(pk=pk)
            names = [f["name"] for f in self.m(mi)["fields"]]
            if not names:
                return False
            row.update(**row.values(*names)[0])
        return True

    def op_delete(self, mi, idx, via, using="default"):
        pk = self.pick(mi, idx, using)
        if pk is None:
            return False
        cls = self.model(mi)
        if via == "qs":
            cls._base_manager.using(using).filter(pk=pk).delete()
        elif via == "all":
            cls._base_manager.using(using).all().delete()
        elif via == "raw" and self.deletable(mi, pk, using):
            conn = connections[using]
            qn = conn.ops.quote_name
            conn.cursor().execute("DELETE FROM %s WHERE %s = %%s" % (qn(cls._meta.db_table), qn(cls._meta.pk.column)),
                                  [cls._meta.pk.get_db_prep_value(pk, conn)])
        else:
            cls._base_manager.using(using).get(pk=pk).delete(using=using)
        return True

    def deletable(self, mi, pk, using):
        """No row refers to this one."""
        for rel in self.model(mi)._meta.get_fields(include_hidden=True):
            if not (rel.auto_created and rel.is_relation and not rel.concrete) or rel.many_to_many \
                    or isinstance(rel.field, GenericRelation):
                continue
            if rel.related_model._base_manager.using(using).filter(**{rel.field.name + "__pk": pk}).exists():
                return False
        return True

    def op_m2m(self, mi, name, idx, action, others, side, using="default"):
        r = self.rel(mi, name)
        t = self.schema.through[(mi, name)]
        f = self.model(mi)._meta.get_field(name)
        sname, dname = f.m2m_field_name(), f.m2m_reverse_field_name()
        if side == "rev":
            pk, ops_ = self.pick(r["to"], idx, using), self.pks(mi, using)
        else:
            pk, ops_ = self.pick(mi, idx, using), self.pks(r["to"], using)
        if pk is None:
            return False
        if ops_:
            targets = list({ops_[o % len(ops_)]: None for o in others})
        else:
            targets = []
        me, them = (dname, sname) if side == "rev" else (sname, dname)
        mgr_t = t._base_manager.using(using)
        if action == "shift":
            # re-point an existing link row with one UPDATE
            rows = sorted(mgr_t.values_list("pk", flat=True))
            if not rows or not targets:
                return False
            row = rows[idx % len(rows)]
            cur = mgr_t.filter(pk=row).values()[0]
            mine = cur[t._meta.get_field(me).attname]
            if mgr_t.filter(**{me: mine, them: targets[0]}).exists():
                return False
            mgr_t.filter(pk=row).update(**{t._meta.get_field(them).attname: targets[0]})
            return True
        if action == "all":
            have = set(mgr_t.filter(**{me: pk}).values_list(t._meta.get_field(them).attname, flat=True))
            mgr_t.bulk_create([t(**{t._meta.get_field(me).attname: pk, t._meta.get_field(them).attname: x})
                               for x in ops_ if x not in have])
            return True
        if r.get("through") or action in ("rawadd", "rawdel"):
            if action in ("add", "set", "rawadd"):
                for x in targets:
                    if not mgr_t.filter(**{me: pk, them: x}).exists():
                        mgr_t.create(**{t._meta.get_field(me).attname: pk, t._meta.get_field(them).attname: x})
            elif action in ("remove", "rawdel"):
                mgr_t.filter(**{me: pk, them + "__in": targets}).delete()
            else:
                mgr_t.filter(**{me: pk}).delete()
            return True
        if side == "rev":
            o = self.model(r["to"])._base_manager.using(using).get(pk=pk)
            mgr = getattr(o, S.accessor(self.spec, mi, r))
        else:
            o = self.model(mi)._base_manager.using(using).get(pk=pk)
            mgr = getattr(o, name)
        if action == "clear":
            mgr.clear()
        else:
            getattr(mgr, action)(*([targets] if action == "set" else targets))
        return True

    def op_hold(self, slot, mi, idx, using="default"):
        """Load an instance (with its relations) and keep it in memory."""
        pk = self.pick(mi, idx, using)
        if pk is None:
            return False
        o = self.model(mi)._base_manager.using(using).select_related().get(pk=pk)
        self.held[slot] = (mi, o)
        return True

    def op_save_held(self, slot, vals, using="default"):
        """Save an instance that may have become outdated since it was loaded."""
        if slot not in self.held:
            return False
        mi, o = self.held[slot]
        cls = self.model(mi)
        if not cls._base_manager.using(using).filter(pk=o.pk).exists():
            return False
        for r in self.m(mi)["rels"]:
            if r["kind"] in ("fk", "o2o"):
                att = cls._meta.get_field(r["name"]).attname
                t = getattr(o, att)
                if t is None:
                    continue
                pks = [p for p, key in self.rel_keys(r, using).items() if key == t]
                if not pks:
                    return False
                if r["to"] == mi and self.would_cycle(mi, r, o.pk, pks[0], using):
                    return False
                if r["kind"] == "o2o" and cls._base_manager.using(using).filter(**{att: t}).exclude(pk=o.pk).exists():
                    return False
        if any(d["kind"] in ("fk", "m2m") for d in self.m(mi)["denorms"]):
            # a related object in memory that is deleted by now cannot be pointed to
            o._state.fields_cache.clear()
        for k, x in self.values(mi, vals).items():
            setattr(o, k, x)
        self.saved.append((mi, o.pk))
        o.save(using=using)
        return True

    def op_race(self, mi, idx, vals, k, other, using="default"):
        """Save a freshly loaded instance; just before statement k of the save another connection commits `other`."""
        pk = self.pick(mi, idx)
        if pk is None:
            return False
        o = self.model(mi)._base_manager.get(pk=pk)
        for n, x in self.values(mi, vals).items():
            setattr(o, n, x)
        i = Interleave(self, k, other)
        with connection.execute_wrapper(i):
            if self.model(mi)._base_manager.using("second").filter(pk=pk).exists():
                o.save()
        if i.done:
            self.bump("raced")
        return True

    def op_proxy(self, op, using="default"):
        """An operation through proxy models, where there are any."""
        models = self.schema.models
        self.schema.models = [self.schema.proxies.get(mi, cls) for mi, cls in enumerate(models)]
        try:
            return getattr(self, "op_" + op[0])(*op[1:], using=using)
        finally:
            self.schema.models = models

    def op_flush(self, using="default"):
        self.flush()
        return True

    def op_txn(self, ops, commit, using="default"):
        """A transaction around several operations; rolled back when commit is false."""
        before = self.everything() if self.check_rollback and commit is not True else None
        try:
            with transaction.atomic(using=using):
                for o in ops:
                    self.apply(o, using=using)
                if commit == "error":
                    # the transaction ends because a statement of it fails
                    self.failing_statement(using)
                elif not commit:
                    raise Rollback()
        except Rollback:
            pass
        except DatabaseError:
            if commit != "error":
                raise
        if before is not None:
            self.bump("rolled back")
            after = self.everything()
            if before != after:
                raise Violation("rollback-left-trace", describe_diff(before[0], after[0])
                                if before[0] != after[0] else "pending: %r -> %r" % (before[1], after[1]))
        return True

    def failing_statement(self, using="default"):
        connections[using].cursor().execute("SELECT no_such_column FROM denorm_dirtyinstance")
        raise HarnessError("the failing statement did not fail")

    def everything(self):
        from denorm.models import DirtyInstance
        return self.dump(), sorted(DirtyInstance.objects.values_list("content_type_id", "object_id"), key=str)

    def wipe(self):
        """Removes all rows and markers, so that a history can be run again."""
        from denorm.models import DirtyInstance
        cur = connection.cursor()
        qn = connection.ops.quote_name
        tables = [m._meta.db_table for m in self.schema.models] + \
                 [t._meta.db_table for t in self.schema.through.values()]
        if connection.vendor == "postgresql":
            cur.execute("TRUNCATE %s RESTART IDENTITY CASCADE" % ", ".join(qn(t) for t in sorted(set(tables))))
        elif connection.vendor == "mysql":
            cur.execute("SET FOREIGN_KEY_CHECKS=0")
            for t in sorted(set(tables)):
                cur.execute("TRUNCATE TABLE %s" % qn(t))
            cur.execute("SET FOREIGN_KEY_CHECKS=1")
        else:
            cur.execute("PRAGMA foreign_keys=OFF")
            for t in sorted(set(tables)):
                cur.execute("DELETE FROM %s" % qn(t))
            cur.execute("DELETE FROM sqlite_sequence WHERE name IN (%s)" % ", ".join("'%s'" % t for t in tables))
            cur.execute("PRAGMA foreign_keys=ON")
        DirtyInstance.objects.all()._raw_delete("default")
        self.serial = 0
        self.held = {}

    # ------------------------------------------------------------ effects of one operation

    def diff(self, d0, d1, ignore=()):
        """Rows whose stored columns differ between two dumps, and links that appeared or vanished."""
        rows, links = set(), set()
        for mi in range(len(self.spec["models"])):
            a, b = d0[0][mi], d1[0][mi]
            for pk in set(a) | set(b):
                if pk not in a or pk not in b:
                    rows.add((mi, pk))
                elif any(a[pk][k] != b[pk][k] for k in a[pk] if (mi, k) not in ignore):
                    rows.add((mi, pk))
        for key in d0[1]:
            for ab in set(d0[1][key]) ^ set(d1[1][key]):
                links.add((key, ab))
        return rows, links

    def related_keys(self, d0, d1, mi, pk, dep):
        """((rows before), (rows after)) related to row pk by a dependency."""
        rel = S.rel_of(self.spec, dep)
        ti = rel["to"] if dep["dir"] == "fwd" else dep["owner"]
        out = []
        for d in (d0, d1):
            row = d[0][mi].get(pk)
            out.append({(ti, o["pk"]) for o in self.related_rows(d, mi, row, dep)} if row is not None else set())
        return out

    # ------------------------------------------------------------ flush

    def flush(self, limit=FLUSH_STATEMENT_LIMIT):
        c = Counter(limit)
        try:
            with connection.execute_wrapper(c), redirect_stdout(io.StringIO()):
                if self.spec.get("verbose"):
                    denorm.flush(verbose=True)
                else:
                    denorm.flush()
        except Diverged as e:
            raise Violation("flush-diverged", str(e))
        except Violation:
            raise
        except Exception as e:
            raise Violation("flush-raised", "%s: %s" % (type(e).__name__, str(e)[:400]))
        return c.n

    def markers(self, using="default"):
        from denorm.models import DirtyInstance
        out = set()
        for ct, oid in DirtyInstance.objects.using(using).values_list("content_type_id", "object_id"):
            out.add((ct, oid))
        return out

    # ------------------------------------------------------------ oracle

    def dump(self, using="default"):
        rows, links = [], {}
        for mi, cls in enumerate(self.schema.models):
            # not through model instances: cached attributes would be evaluated
            names = [f.attname for f in cls._meta.concrete_fields]
            t = {}
            for vals in cls._base_manager.using(using).values_list(*names):
                d = dict(zip(names, [canon(v) for v in vals]))
                d["pk"] = d[cls._meta.pk.attname]
                t[d["pk"]] = d
            rows.append(t)
        for key, t in self.schema.through.items():
            f = self.model(key[0])._meta.get_field(key[1])
            a = t._meta.get_field(f.m2m_field_name()).attname
            b = t._meta.get_field(f.m2m_reverse_field_name()).attname
            links[key] = sorted(((canon(x), canon(y)) for x, y in t._base_manager.using(using).values_list(a, b)), key=str)
        return rows, links

    def base_of(self, dump):
        """The part of a dump no denormalisation may ever change."""
        rows, links = dump
        out = []
        for mi, t in enumerate(rows):
            dn = set()
            for d in self.m(mi)["denorms"]:
                if d["kind"] == "m2m":
                    continue
                dn.add(self.model(mi)._meta.get_field(d["name"]).attname)
            vol = {f["name"] for f in self.m(mi)["fields"] if f["kind"] == "auto_now"}
            out.append({pk: {k: v for k, v in row.items() if k not in dn and k not in vol} for pk, row in t.items()})
        dm2m = {(mi, d["name"]) for mi, m in enumerate(self.spec["models"]) for d in m["denorms"] if d["kind"] == "m2m"}
        return out, {k: v for k, v in links.items() if k not in dm2m}

    def ct_id(self, mi):
        return ContentType.objects.get_for_model(self.model(mi)).pk

    def related_rows(self, dump, mi, row, dep):
        rows, links = dump
        rel = S.rel_of(self.spec, dep)
        owner, to = dep["owner"], rel["to"]
        if rel["kind"] in ("fk", "o2o"):
            att = self.model(owner)._meta.get_field(rel["name"]).attname
            key = self.m(to)["ukey"]["name"] if rel.get("tf") else "pk"
            if dep["dir"] == "fwd":
                t = row[att]
                if t is not None and rel.get("tf"):
                    return [o for o in rows[to].values() if o[key] == t]
                return [] if t is None else [rows[to][t]]
            return [o for o in rows[owner].values() if o[att] == row[key]]
        if rel["kind"] == "m2m":
            pairs = links[(owner, rel["name"])]
            if dep["dir"] == "fwd":
                return [rows[to][b] for a, b in pairs if a == row["pk"]]
            return [rows[owner][a] for a, b in pairs if b == row["pk"]]
        if rel["kind"] == "gen":
            ct = self.ct_id(owner)
            a, b = S.generic_attrs(self.m(to))
            if dep["dir"] == "fwd":
                return [o for o in rows[to].values() if o[a] == ct and o[b] == row["pk"]]
            if row[a] != ct or row[b] not in rows[owner]:
                return []
            return [rows[owner][row[b]]]
        raise AssertionError(rel)

    def expected(self, dump, mi, row, d):
        k = d["kind"]
        if k in ("text", "cached"):
            own = [S.fmt(row[a]) for a in d["own"]]
            groups = [["(%s)" % ";".join(S.fmt(o[a]) for a in dep["read"]) for o in self.related_rows(dump, mi, row, dep)]
                      for dep in d["deps"]]
            return S.computed(d, S.render(own, groups))
        if k == "fk":
            rs = sorted(self.related_rows(dump, mi, row, d["deps"][0]), key=lambda o: str(o["pk"]))
            return rs[0]["pk"] if rs else None
        if k == "m2m":
            return sorted({o["pk"] for o in self.related_rows(dump, mi, row, d["deps"][0])}, key=str)
        raise AssertionError(k)

    def aggregate(self, mi, pk, d, using="default"):
        """What a count/sum must be, asked of the database in one plain query."""
        from django.db.models import Sum, Count
        rel = self.rel(d["owner"], d["rel"])
        if rel["kind"] == "m2m":
            f = self.model(d["owner"])._meta.get_field(d["rel"])
            if d.get("side", "rev") == "rev":
                t = self.schema.through[(d["owner"], d["rel"])]
                ids = list(t._base_manager.using(using).filter(**{f.m2m_reverse_field_name(): pk})
                           .values_list(t._meta.get_field(f.m2m_field_name()).attname, flat=True))
                tgt = self.model(d["owner"])
            qs = tgt._base_manager.using(using).filter(pk__in=ids)
            owner = d["owner"]
        else:
            owner = d["owner"]
            qs = self.model(owner)._base_manager.using(using).filter(**{d["rel"] + "__pk": pk})
        if d.get("filter"):
            qs = qs.filter(**self.schema._conditions(owner, d["filter"]))
        if d.get("exclude"):
            qs = qs.exclude(**self.schema._conditions(owner, d["exclude"]))
        if d["kind"] == "count":
            return qs.count()
        return qs.aggregate(x=Sum(d["field"]))["x"] or 0

    def stale(self, dump=None):
        """How many callback values are outdated now."""
        return len(self.stale_values(dump))

    def stale_values(self, dump=None):
        """(model, row, field) of all outdated callback values."""
        rows, links = dump = dump or self.dump()
        out = set()
        for mi, m in enumerate(self.spec["models"]):
            for d in m["denorms"]:
                if d["kind"] in ("text", "fk", "m2m"):
                    for pk, row in rows[mi].items():
                        exp = self.expected(dump, mi, row, d)
                        if d["kind"] == "m2m":
                            got = sorted({b for a, b in links[(mi, d["name"])] if a == pk}, key=str)
                        else:
                            got = row[self.model(mi)._meta.get_field(d["name"]).attname]
                        if got != exp:
                            out.add((mi, pk, d["name"]))
        return out

    def check_callbacks(self, dump=None, where="after flush", only=None):
        """Every callback-denormalised value equals its function over the stored data."""
        dump = dump or self.dump()
        rows, links = dump
        n = 0
        for mi, m in enumerate(self.spec["models"]):
            for d in m["denorms"]:
                if d["kind"] not in ("text", "fk", "m2m"):
                    continue
                if only is not None and not only(mi, d):
                    continue
                for pk, row in rows[mi].items():
                    exp = self.expected(dump, mi, row, d)
                    if d["kind"] == "m2m":
                        got = sorted({b for a, b in links[(mi, d["name"])] if a == pk}, key=str)
                    else:
                        got = row[self.model(mi)._meta.get_field(d["name"]).attname]
                    n += 1
                    if got != exp:
                        v = Violation("stale", "%s: %s(pk=%r).%s is %r, must be %r"
                                      % (where, m["name"], pk, d["name"], got, exp))
                        v.self_read = self.reads_itself(dump, mi, row, d)
                        raise v
        return n

    def reads_itself(self, dump, mi, row, d):
        """Is the row linked to itself, and reads a computed column over that link?"""
        computed = {x["name"] for x in self.m(mi)["denorms"]}
        return any(S.dep_target(self.spec, dep) == mi and computed & set(dep["read"])
                   and any(o["pk"] == row["pk"] for o in self.related_rows(dump, mi, row, dep))
                   for dep in d["deps"])

    def check_aggregates(self, where, using="default", only=None):
        n = 0
        for mi, m in enumerate(self.spec["models"]):
            for d in m["denorms"]:
                if d["kind"] not in ("count", "sum"):
                    continue
                if only is not None and not only(mi, d):
                    continue
                att = d["name"]
                for pk, got in self.model(mi)._base_manager.using(using).values_list("pk", att):
                    exp = self.aggregate(mi, pk, d, using)
                    n += 1
                    if got != exp:
                        raise Violation("wrong-aggregate", "%s: %s(pk=%r).%s is %r, must be %r"
                                        % (where, m["name"], pk, d["name"], got, exp))
        return n

    def flush_and_check(self, where="after flush", only=None):
        d0 = self.dump()
        before = self.base_of(d0)
        self.bump("repaired", self.stale(d0))
        self.flush()
        left = self.markers()
        if left:
            raise Violation("markers-left", "%s: dirty markers remain: %r" % (where, sorted(left, key=str)[:5]))
        dump = self.dump()
        after = self.base_of(dump)
        if before != after:
            raise Violation("flush-changed-base-data", describe_diff(before, after))
        return self.check_callbacks(dump, where, only)


class HarnessError(Exception):
    pass


def canon(v):
    if isinstance(v, (memoryview, bytearray)):
        return bytes(v)
    if hasattr(v, "wkt"):
        return S.Raw(v.wkt)
    return v


def describe_diff(a, b):
    for mi, (x, y) in enumerate(zip(a[0], b[0])):
        if x != y:
            for pk in set(x) | set(y):
                if x.get(pk) != y.get(pk):
                    return "model %d row %r: %r -> %r" % (mi, pk, x.get(pk), y.get(pk))
    for k in a[1]:
        if a[1][k] != b[1].get(k):
            return "links %r: %r -> %r" % (k, a[1][k], b[1].get(k))
    return "?"


def default_value(kind):
    return {"int": 0, "pint": 0, "big": 0, "text": "", "char": "", "dec": "0.00", "date": "2000-01-01",
            "dt": "2000-01-01 00:00:00.000000", "float": 0.0, "uuid": "00000000-0000-0000-0000-000000000000",
            "bin": "", "bool": False, "point": "0 0", "small": 0, "time": "00:00:00.000000", "dur": 0, "ip": "::1",
            "json": {}, "arr": []}[kind]


def trigger_names(conn):
    cur = conn.cursor()
    if conn.vendor == "postgresql":
        cur.execute("SELECT t.tgname, c.relname FROM pg_trigger t JOIN pg_class c ON t.tgrelid = c.oid WHERE NOT t.tgisinternal")
    elif conn.vendor == "mysql":
        cur.execute("SELECT trigger_name, event_object_table FROM information_schema.triggers WHERE trigger_schema = DATABASE()")
    else:
        cur.execute("SELECT name, tbl_name FROM sqlite_master WHERE type = 'trigger'")
    return sorted((r[0], r[1]) for r in cur.fetchall())


def catalogue(conn):
    """{(name, table): definition} of all triggers of a database."""
    cur = conn.cursor()
    if conn.vendor == "postgresql":
        cur.execute("SELECT t.tgname, c.relname, pg_get_triggerdef(t.oid) || chr(10) || p.prosrc FROM pg_trigger t "
                    "JOIN pg_class c ON t.tgrelid = c.oid JOIN pg_proc p ON t.tgfoid = p.oid WHERE NOT t.tgisinternal")
    elif conn.vendor == "mysql":
        cur.execute("SELECT trigger_name, event_object_table, CONCAT(action_timing, ' ', event_manipulation, ' ', "
                    "action_statement) FROM information_schema.triggers WHERE trigger_schema = DATABASE()")
    else:
        cur.execute("SELECT name, tbl_name, sql FROM sqlite_master WHERE type = 'trigger'")
    return {(r[0], r[1]): r[2] for r in cur.fetchall()}


def drop_all_triggers(conn):
    qn = conn.ops.quote_name
    cur = conn.cursor()
    for name, table in trigger_names(conn):
        if conn.vendor == "postgresql":
            cur.execute("DROP TRIGGER %s ON %s" % (qn(name), qn(table)))
        else:
            cur.execute("DROP TRIGGER %s" % qn(name))
    if conn.vendor == "postgresql":
        cur.execute("SELECT p.oid::regprocedure FROM pg_proc p JOIN pg_namespace n ON p.pronamespace = n.oid "
                    "WHERE n.nspname = 'public' AND p.proname LIKE 'func\\_denorm\\_%'")
        for (sig,) in cur.fetchall():
            cur.execute("DROP FUNCTION %s" % sig)
