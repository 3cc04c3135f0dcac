"""Generated schemas: a JSON spec is turned into real Django models with real
denormalised fields, real tables and real triggers, and torn down again.

Spec of a schema::

  {"models": [{
      "name": "Alpha",            class name
      "table": null | "...",      custom db_table
      "pk": "auto" | "int" | "char" | "uuid",
      "pkcol": null | "...",      custom db_column of an explicit pk
      "generic": false | true,    has content_type / object_id / content_object
      "fields": [{"name", "kind", "null", "column"}],
      "ukey": {"name", "kind", "column"},   a unique column relations may refer to
      "rels":   [{"name", "kind": fk|o2o|m2m|gen, "to": i, "null", "column", "rn", "through", "tf"}],
      "denorms": [...],
      "always_skip": [...]}]}

A denorm is one of::

  {"kind": "text", "name", "own": [field...], "deps": [DEP...], "skip": [...] }
  {"kind": "fk",   "name", "to": i, "deps": [DEP], "as_object": bool}
  {"kind": "m2m",  "name", "to": i, "deps": [DEP], "as_pk": bool}
  {"kind": "count", "name", "owner": i, "rel": name, "filter": {...}, "exclude": {...}}
  {"kind": "sum",   "name", "owner": i, "rel": name, "field", "filter", "exclude"}
  {"kind": "key",  "name", "deps": [DEP]}
  {"kind": "cached", "name", "own": [...], "deps": [DEP]}

DEP: {"owner": i, "rel": name, "dir": "fwd"|"bwd", "read": [field...],
      "ref": "class"|"name"|"label"|"self", "fk": null|name, "type": null|str, "skip": [...]}
"""
import datetime
import decimal
import json
import uuid
import zlib

from django.apps import apps
from django.contrib.contenttypes.fields import GenericForeignKey, GenericRelation
from django.contrib.contenttypes.models import ContentType
from django.core.cache import cache
from django.core.exceptions import ObjectDoesNotExist
from django.db import connection, connections, models
from django.db.models import signals

APP = "gen"
APP2 = "gen2"


def app_of(m):
    return APP2 if m.get("app") else APP


def label(m):
    return "%s.%s" % (app_of(m), m["name"])


def module_of(m):
    return "genapp2.models" if m.get("app") else "genapp.models"


# ---------------------------------------------------------------- values

def decode(kind, v):
    if v is None:
        return None
    if kind == "dec":
        return decimal.Decimal(v)
    if kind == "date":
        return datetime.datetime.strptime(v, "%Y-%m-%d").date()
    if kind == "dt":
        return datetime.datetime.strptime(v, "%Y-%m-%d %H:%M:%S.%f")
    if kind == "time":
        return datetime.datetime.strptime(v, "%H:%M:%S.%f").time()
    if kind == "dur":
        return datetime.timedelta(microseconds=v)
    if kind == "uuid":
        return uuid.UUID(v)
    if kind == "bin":
        return v.encode("utf-8")
    if kind == "point":
        from django.contrib.gis.geos import GEOSGeometry
        return GEOSGeometry("SRID=4326;POINT(%s)" % v)
    return v


class Raw(str):
    """Already formatted."""


def fmt(v):
    if v is None:
        return "~"
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "T" if v else "F"
    if isinstance(v, (bytes, bytearray, memoryview)):
        return "b" + bytes(v).hex()
    if isinstance(v, float):
        return "%r" % v
    if isinstance(v, decimal.Decimal):
        return "%.2f" % v
    if isinstance(v, str):
        return "'%s'" % v
    if hasattr(v, "wkt"):
        return v.wkt
    if isinstance(v, (dict, list)):
        return json.dumps(v, sort_keys=True)
    return str(v)


def field_for(kind, null, column, **extra):
    kw = dict(extra)
    if column:
        kw["db_column"] = column
    if kind == "bool":
        return models.NullBooleanField(**kw) if null else models.BooleanField(**kw)
    if null:
        kw["null"] = True
        kw["blank"] = True
    if kind == "int":
        return models.IntegerField(**kw)
    if kind == "small":
        return models.SmallIntegerField(**kw)
    if kind == "pint":
        return models.PositiveIntegerField(**kw)
    if kind == "big":
        return models.BigIntegerField(**kw)
    if kind == "text":
        return models.TextField(**kw)
    if kind == "char":
        return models.CharField(max_length=60, **kw)
    if kind == "dec":
        return models.DecimalField(max_digits=8, decimal_places=2, **kw)
    if kind == "date":
        return models.DateField(**kw)
    if kind == "dt":
        return models.DateTimeField(**kw)
    if kind == "time":
        return models.TimeField(**kw)
    if kind == "dur":
        return models.DurationField(**kw)
    if kind == "ip":
        return models.GenericIPAddressField(**kw)
    if kind == "json":
        from django.contrib.postgres.fields import JSONField
        return JSONField(**kw)
    if kind == "arr":
        from django.contrib.postgres.fields import ArrayField
        return ArrayField(models.IntegerField(null=True), **kw)
    if kind == "float":
        return models.FloatField(**kw)
    if kind == "uuid":
        return models.UUIDField(**kw)
    if kind == "bin":
        return models.BinaryField(**kw)
    if kind == "auto_now":
        return models.DateTimeField(auto_now=True, **kw)
    if kind == "point":
        from django.contrib.gis.db import models as gis
        return gis.PointField(**kw)
    raise AssertionError(kind)


# columns of computed values: (field class, arguments)
COMPUTED = {
    "int": (models.IntegerField, {"default": 0}),
    "small": (models.SmallIntegerField, {"default": 0}),
    "big": (models.BigIntegerField, {"default": 0}),
    "char": (models.CharField, {"max_length": 30, "default": ""}),
    "text": (models.TextField, {"default": ""}),
    "dec": (models.DecimalField, {"max_digits": 8, "decimal_places": 2, "default": 0}),
    "date": (models.DateField, {"default": datetime.date(2000, 1, 1)}),
    "dt": (models.DateTimeField, {"default": datetime.datetime(2000, 1, 1)}),
    "time": (models.TimeField, {"default": datetime.time(1, 2)}),
    "float": (models.FloatField, {"default": 0}),
    "bool": (models.BooleanField, {"default": False}),
    "uuid": (models.UUIDField, {"default": uuid.UUID(int=0)}),
    "slug": (models.SlugField, {"default": ""}),
    "email": (models.EmailField, {"default": ""}),
}
FALSY = {"int": 0, "small": 0, "big": 0, "char": "", "text": "", "dec": decimal.Decimal(0), "time": datetime.time(0),
         "float": 0.0, "uuid": uuid.UUID(int=0), "slug": "", "email": ""}


def computed(d, text):
    """The value of a computed column of some type that stands for a text."""
    how = d.get("as")
    if how is None:
        return text
    h = zlib.crc32(text.encode("utf-8"))
    if d.get("null") and h % 4 == 0:
        return None
    if h % 8 == 1 and how in FALSY:
        return FALSY[how]
    n = h // 8
    if how in ("int", "small"):
        return n % 1999 - 999
    if how == "big":
        return (n << 20) - (1 << 48)
    if how == "char":
        return "%s %d" % (text[:15].rstrip(), n % 1000)
    if how == "text":
        return text
    if how == "dec":
        return decimal.Decimal(n % 100000) / 100
    if how == "date":
        return datetime.date.fromordinal(700000 + n % 30000)
    if how == "dt":
        return datetime.datetime(1999, 1, 1) + datetime.timedelta(seconds=n % 10 ** 8, microseconds=n % 10 ** 6)
    if how == "time":
        return datetime.time(n % 24, n % 60, n % 59)
    if how == "float":
        return (n % 1999 - 999) / 8.0
    if how == "bool":
        return n % 2 == 1
    if how == "uuid":
        return uuid.UUID(int=n * 7919)
    if how == "slug":
        return "s-%d" % (n % 1000)
    if how == "email":
        return "a%d@example.com" % (n % 1000)
    raise AssertionError(how)


# ---------------------------------------------------------------- spec helpers

def rel_of(spec, dep):
    for r in spec["models"][dep["owner"]]["rels"]:
        if r["name"] == dep["rel"]:
            return r
    raise AssertionError(dep)


def dep_target(spec, dep):
    """Index of the model the dependency is on."""
    return rel_of(spec, dep)["to"] if dep["dir"] == "fwd" else dep["owner"]


def accessor(spec, owner, rel):
    """Name of the reverse accessor of a relation."""
    if rel.get("rn"):
        return rel["rn"]
    name = spec["models"][owner]["name"].lower()
    return name if rel["kind"] == "o2o" else name + "_set"


def generic_attrs(m):
    """Attributes of an attached row that say what it is attached to."""
    ct, oid = (m.get("generic_names") or ["content_type", "object_id"])[:2]
    return ct + "_id", oid


def field_names(m):
    return [f["name"] for f in m["fields"]]


# ---------------------------------------------------------------- callbacks

class Hooks(object):
    """Lets a property observe or break callback calls."""
    on_call = None


HOOKS = Hooks()


def _related(self, spec, dep):
    rel = rel_of(spec, dep)
    if dep["dir"] == "fwd":
        if rel["kind"] in ("fk", "o2o"):
            o = getattr(self, rel["name"])
            return [] if o is None else [o]
        if self.pk is None:
            return []
        return list(getattr(self, rel["name"]).all())
    if rel["kind"] == "gen":
        # this is the tag: the tagged object, if it is of that model
        m = spec["models"][rel["to"]]
        ct = ContentType.objects.db_manager(self._state.db).get_for_model(apps.get_model(label(spec["models"][dep["owner"]])))
        if getattr(self, generic_attrs(m)[0]) != ct.pk:
            return []
        o = getattr(self, m["generic_names"][2] if m.get("generic_names") else "content_object")
        return [] if o is None else [o]
    if self.pk is None:
        return []
    acc = accessor(spec, dep["owner"], rel)
    if rel["kind"] == "o2o":
        try:
            return [getattr(self, acc)]
        except ObjectDoesNotExist:
            return []
    return list(getattr(self, acc).all())


def render(own, groups):
    return "|".join([";".join(own)] + [",".join(sorted(g)) for g in groups])


def text_func(spec, mi, d):
    def func(self):
        if HOOKS.on_call is not None:
            HOOKS.on_call(mi, d["name"], self)
        own = [fmt(getattr(self, a)) for a in d["own"]]
        groups = []
        for dep in d["deps"]:
            groups.append(["(%s)" % ";".join(fmt(getattr(o, a)) for a in dep["read"])
                           for o in _related(self, spec, dep)])
        value = computed(d, render(own, groups))
        # what a form or a file may give
        return str(value) if d.get("as_str") and value is not None and not isinstance(value, bool) else value
    func.__name__ = str(d["name"])
    return func


def fk_func(spec, mi, d):
    def func(self):
        if HOOKS.on_call is not None:
            HOOKS.on_call(mi, d["name"], self)
        rows = sorted(_related(self, spec, d["deps"][0]), key=lambda o: str(o.pk))
        if not rows:
            return None
        return rows[0] if d["as_object"] else rows[0].pk
    func.__name__ = str(d["name"])
    return func


def m2m_func(spec, mi, d):
    def func(self):
        if HOOKS.on_call is not None:
            HOOKS.on_call(mi, d["name"], self)
        rows = _related(self, spec, d["deps"][0])
        return [o.pk for o in rows] if d["as_pk"] else rows
    func.__name__ = str(d["name"])
    return func


def cached_func(spec, mi, d):
    def func(self):
        own = [fmt(getattr(self, a)) for a in d["own"]]
        groups = []
        for dep in d["deps"]:
            groups.append(["(%s)" % ";".join(fmt(getattr(o, a)) for a in dep["read"])
                           for o in _related(self, spec, dep)])
        return render(own, groups)
    func.__name__ = str(d["name"])
    return func


# ---------------------------------------------------------------- building

class Schema(object):
    def __init__(self, spec):
        self.spec = spec
        self.models = []
        self.through = {}       # (model index, rel name) -> through model
        self._saved_receivers = None
        self.built = False
        self.tables = False

    # -- classes

    def define(self):
        self._saved_receivers = [(s, list(s.receivers)) for s in
                                 (signals.class_prepared, signals.pre_save, signals.post_save)]
        self._foreign_related = set(vars(ContentType))
        self.built = True
        spec = self.spec
        self.abstract = {}
        self.proxies = {}
        for mi, m in enumerate(spec["models"]):
            self.models.append(self._define_one(mi, m))
        for mi, m in enumerate(spec["models"]):
            for r in m["rels"]:
                if r["kind"] == "m2m":
                    self.through[(mi, r["name"])] = self.models[mi]._meta.get_field(r["name"]).remote_field.through
            for d in m["denorms"]:
                if d["kind"] == "m2m":
                    self.through[(mi, d["name"])] = self.models[mi]._meta.get_field(d["name"]).remote_field.through
        return self

    def _ref(self, mi, dep):
        # the model may be given apart from the relation, or be one that does not exist
        ti = dep["target"] if "target" in dep else dep_target(self.spec, dep)
        how = dep["ref"]
        if ti is None:
            return "%s.Nowhere" % APP if how == "label" else "Nowhere"
        name = self.spec["models"][ti]["name"]
        app = app_of(self.spec["models"][ti])
        if app != app_of(self.spec["models"][mi]) and (how == "name" or how == "class" and ti >= len(self.models)):
            how = "label"
        if dep["dir"] == "fwd" and "target" not in dep and rel_of(self.spec, dep).get("proxy"):
            # the model the relation points to
            if how == "class" and ti in self.proxies:
                return self.proxies[ti]
            return ("%s.%sProxy" if how == "label" else "%.0s%sProxy") % (app, name)
        if how == "self":
            assert ti == mi
            return "self"
        if how == "class" and ti < len(self.models):
            return self.models[ti]
        if how == "label":
            return "%s.%s" % (app, name)
        if how == "lower":
            return "%s.%s" % (app, name.lower())
        return name

    def _dep_args(self, mi, dep):
        kw = {}
        if dep.get("fk"):
            kw["foreign_key"] = dep["fk"]
        if dep.get("type"):
            kw["type"] = dep["type"]
        if dep.get("skip"):
            kw["skip"] = tuple(dep["skip"])
        return (self._ref(mi, dep),), kw

    def _define_one(self, mi, m):
        import denorm
        from denorm.fields import SumField
        spec = self.spec
        meta = {"app_label": app_of(m)}
        if m.get("table"):
            meta["db_table"] = m["table"]
        body = {"__module__": module_of(m)}
        if m["pk"] != "auto":
            kind, extra = {"int": ("int", {}), "char": ("char", {}), "big": ("big", {}),
                           "uuid": ("uuid", {"default": uuid.uuid4})}[m["pk"]]
            body[m.get("pkname") or "id"] = field_for(kind, False, m.get("pkcol"), primary_key=True, **extra)
        elif m.get("pkcol") or m.get("pkname"):
            body[m.get("pkname") or "id"] = models.AutoField(primary_key=True, db_column=m.get("pkcol"))
        for f in m["fields"]:
            body[f["name"]] = field_for(f["kind"], f.get("null"), f.get("column"))
        if m.get("ukey"):
            body[m["ukey"]["name"]] = field_for(m["ukey"]["kind"], False, m["ukey"].get("column"), unique=True)
        if m.get("generic"):
            ct, oid, obj = m.get("generic_names") or ["content_type", "object_id", "content_object"]
            ctcol, oidcol = m.get("generic_columns") or [None, None]
            body[ct] = models.ForeignKey(ContentType, on_delete=models.CASCADE, related_name="+", db_column=ctcol)
            body[oid] = models.PositiveIntegerField(db_column=oidcol)
            body[obj] = GenericForeignKey(ct, oid)
        for r in m["rels"]:
            to = "self" if r["to"] == mi else label(spec["models"][r["to"]])
            if r.get("proxy"):
                to = label(spec["models"][r["to"]]) + "Proxy"
            kw = {}
            if r.get("rn"):
                kw["related_name"] = r["rn"]
            if r["kind"] in ("fk", "o2o"):
                if r.get("column"):
                    kw["db_column"] = r["column"]
                if r.get("null"):
                    kw.update(null=True, blank=True)
                if r.get("tf"):
                    kw["to_field"] = spec["models"][r["to"]]["ukey"]["name"]
                kw["on_delete"] = models.SET_NULL if r.get("set_null") and r.get("null") else models.CASCADE
                cls = models.ForeignKey if r["kind"] == "fk" else models.OneToOneField
                body[r["name"]] = cls(to, **kw)
            elif r["kind"] == "m2m":
                if r["to"] == mi:
                    kw["symmetrical"] = False
                if r.get("through"):
                    kw["through"] = "%s.%s" % (app_of(m), r["through"])
                elif r.get("m2m_table"):
                    kw["db_table"] = r["m2m_table"]
                body[r["name"]] = models.ManyToManyField(to, blank=True, **kw)
            elif r["kind"] == "gen":
                names = spec["models"][r["to"]].get("generic_names")
                body[r["name"]] = GenericRelation(to, content_type_field=names[0], object_id_field=names[1]) \
                    if names else GenericRelation(to)
        for d in m["denorms"]:
            body[d["name"]] = self._denorm(mi, d, denorm, SumField)
        if m.get("always_skip"):
            body["denorm_always_skip"] = tuple(m["always_skip"])
        if m.get("filtered_manager"):
            # a default manager that hides rows
            f = m["filtered_manager"]

            class Hiding(models.Manager):
                def get_queryset(self):
                    return super(Hiding, self).get_queryset().exclude(**{f: 0})
            body["objects"] = Hiding()
        bases = (models.Model,)
        if m.get("abstract"):
            # put everything in a shared abstract base class
            key = m["abstract"]
            if key not in self.abstract:
                ab = dict(body)
                ab["Meta"] = type("Meta", (), {"app_label": app_of(m), "abstract": True})
                self.abstract[key] = type(str(key), (models.Model,), ab)
            bases = (self.abstract[key],)
            body = {"__module__": module_of(m)}
        body["Meta"] = type("Meta", (), meta)
        cls = type(str(m["name"]), bases, body)
        if m.get("proxy"):
            self.proxies[mi] = type(str(m["name"] + "Proxy"), (cls,), {
                "__module__": module_of(m), "Meta": type("Meta", (), {"app_label": app_of(m), "proxy": True})})
        for r in m["rels"]:
            if r["kind"] == "m2m" and r.get("through"):
                tname = r["through"]
                other = label(spec["models"][r["to"]]) + ("Proxy" if r.get("proxy") else "")
                scol, dcol = r.get("through_columns") or [None, None]
                tmeta = {"app_label": app_of(m)}
                if r.get("through_table"):
                    tmeta["db_table"] = r["through_table"]
                type(str(tname), (models.Model,), {
                    "__module__": module_of(m),
                    "src": models.ForeignKey(label(m), on_delete=models.CASCADE,
                                             related_name="+", db_column=scol),
                    "dst": models.ForeignKey(other, on_delete=models.CASCADE, related_name="+",
                                             db_column=dcol),
                    "Meta": type("Meta", (), tmeta),
                })
        return cls

    def _denorm(self, mi, d, denorm, SumField):
        spec = self.spec
        k = d["kind"]
        extra = {None: {}, "": {}, "verbose": {"verbose_name": "a name"}, "help": {"help_text": "some help"},
                 "index": {"db_index": True}, "blank": {"blank": True},
                 "choices": {"choices": [(1, "one"), (2, "two")]}}[d.get("extra")]
        if k in ("text", "fk", "m2m"):
            func = {"text": text_func, "fk": fk_func, "m2m": m2m_func}[k](spec, mi, d)
            for dep in d["deps"]:
                a, kw = self._dep_args(mi, dep)
                func = denorm.depend_on_related(*a, **kw)(func)
            kw = dict(extra)
            if d.get("skip"):
                kw["skip"] = tuple(d["skip"])
            if d.get("column"):
                kw["db_column"] = d["column"]
            if k == "text" and d.get("as"):
                cls, args = COMPUTED[d["as"]]
                if d.get("null"):
                    cls, args = models.NullBooleanField if d["as"] == "bool" else cls, dict(args, null=True)
                    if not d.get("nulldef"):
                        args["default"] = None
                return denorm.denormalized(cls, **dict(args, **kw))(func)
            if k == "text":
                return denorm.denormalized(models.TextField, default="", **kw)(func)
            to = "self" if d["to"] == mi else label(spec["models"][d["to"]])
            if k == "fk":
                return denorm.denormalized(models.ForeignKey, to, null=True, blank=True, related_name="+",
                                           on_delete=models.SET_NULL, **kw)(func)
            return denorm.denormalized(models.ManyToManyField, to, blank=True, related_name="+", **kw)(func)
        if k in ("count", "sum"):
            rel = [r for r in spec["models"][d["owner"]]["rels"] if r["name"] == d["rel"]][0]
            mgr = accessor(spec, d["owner"], rel) if d.get("side", "rev") == "rev" else rel["name"]
            kw = dict(extra)
            if d.get("filter"):
                kw["filter"] = self._conditions(d["owner"], d["filter"])
            if d.get("exclude"):
                kw["exclude"] = self._conditions(d["owner"], d["exclude"])
            if d.get("column"):
                kw["db_column"] = d["column"]
            if k == "count":
                return denorm.CountField(mgr, **kw)
            return SumField(mgr, field=d["field"], **kw)
        if k == "key":
            f = denorm.CacheKeyField(**dict(extra, **({"db_column": d["column"]} if d.get("column") else {})))
            for dep in d["deps"]:
                a, kw = self._dep_args(mi, dep)
                f.depend_on_related(*a, **kw)
            return f
        if k == "cached":
            func = cached_func(spec, mi, d)
            for dep in d["deps"]:
                a, kw = self._dep_args(mi, dep)
                func = denorm.depend_on_related(*a, **kw)(func)
            return denorm.cached(cache, **dict(extra, **({"db_column": d["column"]} if d.get("column") else {})))(func)
        raise AssertionError(k)

    def _conditions(self, owner, cond):
        kinds = {f["name"]: f["kind"] for f in self.spec["models"][owner]["fields"]}
        out = {}
        for name, v in cond.items():
            base, _, lookup = name.partition("__")
            if lookup == "isnull":
                out[name] = v
            elif lookup in ("in", "range"):
                out[name] = [decode(kinds[base], x) for x in v]
            else:
                out[name] = decode(kinds[base], v)
        return out

    # -- tables

    def all_models(self):
        return list(self.models) + [t for a in (APP, APP2) for t in apps.get_app_config(a).get_models()
                                    if t not in self.models and not t._meta.auto_created and not t._meta.proxy]

    def create_tables(self, using="default"):
        self.tables = True
        with connections[using].schema_editor() as ed:
            for m in self.all_models():
                ed.create_model(m)
        return self

    def drop_tables(self, using="default"):
        conn = connections[using]
        with conn.constraint_checks_disabled():
            names = [t for t in conn.introspection.table_names()
                     if t not in ("django_content_type", "django_migrations", "denorm_dirtyinstance",
                                  "spatial_ref_sys", "geography_columns", "geometry_columns", "raster_columns",
                                  "raster_overviews")]
            if names:
                cur = conn.cursor()
                if conn.vendor == "postgresql":
                    cur.execute("DROP TABLE %s CASCADE" % ", ".join(conn.ops.quote_name(n) for n in names))
                elif conn.vendor == "mysql":
                    cur.execute("SET FOREIGN_KEY_CHECKS=0")
                    cur.execute("DROP TABLE %s" % ", ".join(conn.ops.quote_name(n) for n in names))
                    cur.execute("SET FOREIGN_KEY_CHECKS=1")
                else:
                    cur.execute("PRAGMA foreign_keys=OFF")
                    for n in names:
                        cur.execute("DROP TABLE %s" % conn.ops.quote_name(n))
                    cur.execute("PRAGMA foreign_keys=ON")

    def undefine(self):
        if not self.built:
            return
        for s, rec in self._saved_receivers:
            with s.lock:
                s.receivers[:] = rec
            s.sender_receivers_cache.clear()
        apps.all_models[APP].clear()
        apps.all_models[APP2].clear()
        apps._pending_operations.clear()
        for name in set(vars(ContentType)) - self._foreign_related:
            if not name.startswith("_"):
                delattr(ContentType, name)
        apps.clear_cache()
        ContentType.objects.clear_cache()
        self.models = []
        self.built = False
