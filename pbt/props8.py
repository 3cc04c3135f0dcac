"""Proxy models, the setting without triggers on own rows, and fixtures."""
import os
import tempfile
import threading

from django.conf import settings
from django.core import serializers
from django.core.management import call_command
from django.db import OperationalError

import gen as G
import schema as S
from gen import flag, ints, pickf
from props import PROPS, FlushProp, Prop, conditions, register
from props2 import has
from props5 import C26, OVERLOOKED
from world import Counter, Diverged, Interleave, Violation, World, is_lock_error, short_lock_wait


# ---------------------------------------------------------------- proxy models

@register
class C28(FlushProp):
    id = "C28"
    weights = dict(G.DEFAULT_WEIGHTS, hold=0, save_held=0)

    def case(self, draw, backend):
        b = G.mixed(draw, backend, nfeatures=(1, 4), pks=("auto", "auto", "auto", "uuid"))
        for m in b.spec["models"]:
            m["proxy"] = flag(draw, 2)
        if not any(m["proxy"] for m in b.spec["models"]):
            b[0]["proxy"] = True
        # which relation a model has to a proxy of itself is not looked for
        backwards = {(dep["owner"], dep["rel"]) for m in b.spec["models"] for d in m["denorms"]
                     for dep in d.get("deps", ()) if dep["dir"] == "bwd"}
        for mi, m in enumerate(b.spec["models"]):
            for r in m["rels"]:
                if r["kind"] != "gen" and r["to"] != mi and b[r["to"]]["proxy"] and (mi, r["name"]) not in backwards \
                        and flag(draw, 2):
                    r["proxy"] = True
        spec = b.finish()
        ops = [self.forward(spec, op) for op in G.history(draw, spec, self.weights, self.nmax)]
        ops = [["proxy", op] if op[0] not in ("txn", "flush") and flag(draw, 2) else op for op in ops]
        return {"spec": spec, "ops": ops}

    def forward(self, spec, op):
        """Only a proxy has the other end of a many-to-many relation to it."""
        if op[0] == "txn":
            return ["txn", [self.forward(spec, x) for x in op[1]]] + op[2:]
        if op[0] == "m2m" and [r for r in spec["models"][op[1]]["rels"] if r["name"] == op[2]][0].get("proxy"):
            return op[:6] + ["fwd"]
        return op

    def after_op(self, w, op):
        w.check_aggregates("after " + op[0])

    def info(self, w):
        info = FlushProp.info(self, w)
        info["classes"] += ["to a proxy" for m in w.spec["models"] for r in m["rels"] if r.get("proxy")][:1]
        info["nontrivial"] = info["nontrivial"] and (w.stats.get("proxy", 0) > 0 or "to a proxy" in info["classes"])
        return info


# ---------------------------------------------------------------- no triggers on own rows

@register
class C29(FlushProp):
    id = "C29"
    weights = dict(G.DEFAULT_WEIGHTS, hold=0, save_held=0)

    def case(self, draw, backend):
        b = G.mixed(draw, backend, features=("text", "text", "count", "sum", "key"), nfeatures=(1, 4))
        for m in b.spec["models"]:
            for r in m["rels"]:
                r.pop("set_null", None)
        spec = b.finish()
        ops = G.history(draw, spec, self.weights, self.nmax)
        if flag(draw, 5):
            # the setting is there, but off
            return {"spec": spec, "ops": ops, "off": True}
        return {"spec": spec, "ops": [self.tame(spec, op) for op in ops]}

    def tame(self, spec, op):
        """Rows with computed fields are written by saving an instance."""
        op = list(op)
        if op[0] == "txn":
            op[1] = [self.tame(spec, x) for x in op[1]]
        if op[0] in ("create", "update", "touch", "bulk", "bulkset", "incr", "many", "line"):
            if any(d["kind"] == "text" for d in spec["models"][op[1]]["denorms"]):
                if op[0] in ("bulk", "bulkset", "incr"):
                    return ["touch", op[1], 0, "save"]
                if op[0] == "create":
                    op[2] = "save"
                elif op[0] in ("update", "touch"):
                    op[3] = "save"
                elif op[0] == "many":
                    return ["create", op[1], "save", op[3], op[4]] + list(op[5:])
                elif op[0] == "line":
                    return ["create", op[1], "save", op[4], {}]
        return op

    def run(self, case, backend):
        settings.DENORM_BULK_UNSAFE_TRIGGERS = not case.get("off")
        try:
            return FlushProp.run(self, case, backend)
        finally:
            del settings.DENORM_BULK_UNSAFE_TRIGGERS

    def after_op(self, w, op):
        w.check_aggregates("after " + op[0])


# ---------------------------------------------------------------- fixtures

@register
class C30(Prop):
    id = "C30"

    def case(self, draw, backend):
        b = G.mixed(draw, backend, nfeatures=(1, 5), pks=("auto", "auto", "auto", "uuid", "char"))
        conditions(draw, b, backend)
        spec = b.finish()
        return {"spec": spec, "ops": G.history(draw, spec, None, 4), "flush": flag(draw, 2), 
                # links of a denormalised field that a fixture replaces are not noticed
                "wipe": has(spec, "m2m") or any(r["kind"] == "o2o" for m in spec["models"] for r in m["rels"])
                or not flag(draw, 3),
                "order": [draw(ints(0, 9)) for _ in range(8)],
                "later": [G.one_op(draw, spec, dict(G.DEFAULT_WEIGHTS, hold=0, save_held=0, flush=1))
                          for _ in range(draw(ints(0, 3)))]}

    def run(self, case, backend):
        with World(case["spec"]) as w:
            w.install()
            for op in case["ops"]:
                w.flush_and_check() if op[0] == "flush" else w.apply(op)
            if case["flush"]:
                w.flush_and_check()
            objects = [o for m in w.schema.all_models() for o in m._base_manager.order_by("pk")]
            # any order of the objects
            objects = [o for _, _, o in sorted((case["order"][i % len(case["order"])], i, o) for i, o in enumerate(objects))]
            text = serializers.serialize("json", objects)
            before = w.base_of(w.dump())
            stale = w.stale()
            if case["wipe"]:
                serial = w.serial
                w.wipe()
                w.serial = serial
            else:
                for op in case["later"]:
                    w.flush_and_check() if op[0] == "flush" else w.apply(op)
            with tempfile.TemporaryDirectory() as d:
                path = os.path.join(d, "data.json")
                with open(path, "w", encoding="utf-8") as f:
                    f.write(text)
                try:
                    call_command("loaddata", path, verbosity=0)
                except Exception as e:
                    raise Violation("loading-raised", "%s: %s" % (type(e).__name__, str(e)[:300]))
            if case["wipe"] and w.base_of(w.dump()) != before:
                raise Violation("loaded-differs", "the data loaded is not the data dumped")
            w.check_aggregates("after loading")
            w.flush_and_check("after loading and flushing")
            if case["wipe"]:
                for op in case["later"]:
                    w.flush_and_check() if op[0] == "flush" else w.apply(op)
                w.flush_and_check("at the end")
            return {"nontrivial": len(objects) > 2 and (case["wipe"] or w.stats.get("repaired", 0) > 0),
                    "classes": ["wiped" if case["wipe"] else "over existing", "dumped outdated" if stale else "dumped current"] +
                               ["denorm:" + d["kind"] for m in w.spec["models"] for d in m["denorms"]]}


# ---------------------------------------------------------------- relations to other unique columns

@register
class C33(Prop):
    id = "C33"
    bases = ["C01", "C01", "C02", "C03", "C06", "C09", "C10", "C13", "C13", "C14"]

    def case(self, draw, backend):
        base = pickf(draw, self.bases)
        case = PROPS[base].case(draw, backend)
        models = case["spec"]["models"]
        n = 0
        for m in models:
            for r in m["rels"]:
                if r["kind"] in ("fk", "o2o") and (n == 0 or not flag(draw, 3)):
                    n += 1
                    r["tf"] = True
                    models[r["to"]].setdefault("ukey", {
                        "name": "u%d" % n, "kind": pickf(draw, ["int", "int", "char", "big", "uuid"]),
                        "column": "Key %d" % n if flag(draw, 4) else None})
        return dict(case, base=base)

    def run(self, case, backend):
        info = PROPS[case["base"]].run(case, backend)
        models = case["spec"]["models"]
        used = {(x["owner"], x["rel"]) for m in models for d in m["denorms"] for x in [d] + d.get("deps", [])
                if "owner" in x}
        info["nontrivial"] = info["nontrivial"] and any(
            r.get("tf") and (mi, r["name"]) in used for mi, m in enumerate(models) for r in m["rels"])
        info["classes"] = ["as:" + case["base"]] + info["classes"]
        return info

    def known(self, v, case, backend):
        return PROPS[case["base"]].known(v, case, backend)


# ---------------------------------------------------------------- models of several apps

@register
class C34(Prop):
    id = "C34"
    bases = ["C01", "C01", "C01", "C02", "C03", "C04", "C06", "C08", "C09", "C10", "C11", "C13", "C13", "C14", "C17", "C19",
             "C22"]

    def case(self, draw, backend):
        base = pickf(draw, self.bases)
        case = PROPS[base].case(draw, backend)
        models = case["spec"]["models"]
        here, there = [], []
        for m in models:
            if flag(draw, 2):
                m["app"] = 2
            (there if m.get("app") else here).append(m)
        # models of different apps may have the same name
        for a, b in zip(here, there):
            if not flag(draw, 3):
                b["name"] = a["name"]
        for mi, m in enumerate(models):
            for r in m["rels"]:
                if r["kind"] != "gen" and not r.get("rn"):
                    r["rn"] = "back%d%s" % (mi, r["name"])
        return dict(case, base=base)

    def run(self, case, backend):
        info = PROPS[case["base"]].run(case, backend)
        models = case["spec"]["models"]
        info["nontrivial"] = info["nontrivial"] and len({S.app_of(m) for m in models}) > 1
        info["classes"] = ["as:" + case["base"], "same name" if len({m["name"] for m in models}) < len(models)
                           else "other names"] + info["classes"]
        return info

    def known(self, v, case, backend):
        return PROPS[case["base"]].known(v, case, backend)


# ---------------------------------------------------------------- columns of computed values

@register
class C31(FlushProp):
    id = "C31"

    def schema(self, draw, backend):
        b = G.mixed(draw, backend, features=("text", "text", "text", "count", "key"), nfeatures=(2, 5),
                    kinds=G.kinds_for(backend))
        for m in b.spec["models"]:
            for d in m["denorms"]:
                if d["kind"] == "text" and not flag(draw, 5):
                    d["as"] = pickf(draw, sorted(S.COMPUTED))
                    d["null"] = flag(draw, 3)
                    d["nulldef"] = flag(draw, 2)
                    d["as_str"] = flag(draw, 4)
        return b.finish()

    def after_op(self, w, op):
        # what saves store right away
        for mi, pk in w.saved if op[0] != "txn" else ():
            dump = w.dump()
            if pk in dump[0][mi]:
                for d in w.m(mi)["denorms"]:
                    if d["kind"] == "text" and not d["deps"]:
                        exp, got = w.expected(dump, mi, dump[0][mi][pk], d), dump[0][mi][pk][d["name"]]
                        if got != exp:
                            raise Violation("saved", "%s is %r, must be %r" % (d["name"], got, exp))

    def info(self, w):
        info = FlushProp.info(self, w)
        info["classes"] += ["as:" + d["as"] for m in w.spec["models"] for d in m["denorms"] if d.get("as")]
        return info


# ---------------------------------------------------------------- two flushes at once

def flush_elsewhere():
    """A complete flush on connections of its own; returns what it raised."""
    from django.db import connections
    import denorm
    out = []

    def work():
        try:
            conn = connections["default"]
            short_lock_wait(conn)
            with conn.execute_wrapper(Counter(30000)):
                denorm.flush()
            out.append(None)
        except BaseException as e:
            out.append(e)
        finally:
            connections.close_all()
    t = threading.Thread(target=work)
    t.start()
    t.join()
    return out[0]


@register
class C32(C26):
    """Like writes during a flush, with a second flush as the write."""
    id = "C32"

    def case(self, draw, backend):
        if flag(draw, 2):
            spec = PROPS["C06"].schema(draw, backend)
            ops = [o for o in G.history(draw, spec, self.weights, 5) if o[0] not in ("line", "many")]
        else:
            case = C26.case(self, draw, backend)
            spec, ops = case["spec"], case["ops"] + [case["other"]]
        return {"spec": spec, "ops": ops, "other": ["flush"]}

    def known(self, v, case, backend):
        return v.kind if v.kind == OVERLOOKED else Prop.known(self, v, case, backend)

    def interleave(self, w, k, other):
        return Second(w, k, other, 30000)


class Second(Interleave):
    def go(self):
        e = flush_elsewhere()
        if e is None:
            self.done = True
        elif isinstance(e, OperationalError) and is_lock_error(str(e)):
            self.blocked = True
        elif isinstance(e, Diverged):
            raise Violation("flush-diverged", "the second flush: %s" % e)
        else:
            raise Violation("flush-raised", "the second flush: %s: %s" % (type(e).__name__, str(e)[:300]))
