"""Declarations: which relation a dependency means; names, key types and inheritance."""
import copy

from hypothesis import strategies as st

import gen as G
import schema as S
from gen import Builder, flag, ints, pickf
from props import PROPS, FlushProp, Prop, register
from props2 import Marks, hide, texts
from world import NoTables, Violation, World


# ---------------------------------------------------------------- which relation is meant

REL_NAMES = ["owner", "own", "owner2", "owner_x", "link", "links"]
TYPES = ["forward", "backward", "forward_m2m", "backward_m2m"]


def candidates(spec, mi, ti, name, direction):
    """Every (owner, relation, direction) between two models that fits a name and a direction."""
    out = []
    sides = [(mi, ti, "fwd")]
    if mi != ti or direction:
        sides.append((ti, mi, "bwd"))
    for owner, to, way in sides:
        for r in spec["models"][owner]["rels"]:
            if r["to"] != to:
                continue
            many = r["kind"] in ("m2m", "gen")
            kind = ("forward" if way == "fwd" else "backward") + ("_m2m" if many else "")
            if direction and direction != kind:
                continue
            if name and name != r["name"] and not (not many and name == r["name"] + "_id"):
                continue
            out.append((owner, r, way))
    return out


@register
class C22(Prop):
    id = "C22"
    weights = dict(G.DEFAULT_WEIGHTS, txn=0, hold=0, save_held=0, update=9, m2m=9)

    def case(self, draw, backend):
        b = Builder(draw, backend)
        n = draw(ints(1, 3))
        generic = flag(draw, 4)
        for i in range(n):
            b.model(G.SIMPLE_KINDS, 1, 2)
        if generic:
            b.model(G.SIMPLE_KINDS, 1, 1, generic=True)
        last = len(b.spec["models"]) - 1
        mi = draw(ints(0, last))
        ti = draw(ints(0, last))
        if mi == ti and last and flag(draw, 2):
            ti = (mi + 1) % (last + 1)
        taken = set()
        for _ in range(draw(ints(0, 4))):
            # mostly between the two models, sometimes with a third one
            owner, to = (mi, ti) if flag(draw, 2) else (ti, mi)
            if flag(draw, 5):
                to = draw(ints(0, last))
            name = pickf(draw, REL_NAMES)
            if (owner, name) in taken:
                continue
            taken.add((owner, name))
            kinds = ["fk", "fk", "o2o", "m2m", "m2m"] if owner != to else ["fk", "m2m"]
            if b[to].get("generic") and owner != to and not b[owner].get("generic"):
                kinds = kinds + ["gen", "gen"]
            kind = pickf(draw, kinds)
            r = b.rel(kind, owner, to)
            r["name"] = name
            if kind != "gen":
                r["rn"] = b.fresh("rev")
            r.pop("through", None)
            if kind in ("fk", "o2o"):
                r["null"] = True
        names = sorted({r["name"] for m in b.spec["models"] for r in m["rels"]}) + REL_NAMES[:1]
        name = None
        if flag(draw, 2):
            name = pickf(draw, names) + pickf(draw, ["", "", "", "_id", "x"])
        direction = pickf(draw, TYPES) if flag(draw, 3) else None
        found = candidates(b.spec, mi, ti, name, direction)
        how = pickf(draw, ["class", "name", "label", "lower"])
        if mi == ti and flag(draw, 2):
            how = "self"
        dep = {"owner": None, "rel": None, "dir": "fwd", "read": [], "ref": how, "fk": name, "type": direction,
               "target": ti}
        if flag(draw, 15):
            dep["target"], found = None, []
        kind = pickf(draw, ["text", "text", "key"])
        unique = len(found) == 1
        if unique:
            owner, r, way = found[0]
            dep.update(owner=owner, rel=r["name"], dir=way)
            if kind == "text":
                dep["read"] = b.reads(r["to"] if way == "fwd" else owner, ["pk"])
            elif not G.acyclic({(ti, mi)}):
                kind = "text"
        if kind == "text":
            b.text(mi, [dep], own=b.readable(mi)[:1] if flag(draw, 2) else [])
        else:
            b[mi]["denorms"].append({"kind": "key", "name": b.fresh("k"), "own": [], "deps": [dep]})
        case = {"spec": b.spec, "unique": unique, "dep": dep}
        case["ops"] = G.history(draw, b.spec, self.weights, 8) if unique else []
        return case

    def run(self, case, backend):
        classes = ["ref:" + case["dep"]["ref"], "name" if case["dep"]["fk"] else "no name",
                   case["dep"]["type"] or "no direction"]
        if not case["unique"]:
            try:
                with World(case["spec"]) as w:
                    w.install()
            except Violation as e:
                if e.kind in ("declaration-raised", "install-raised") and e.detail.startswith("ValueError"):
                    return {"nontrivial": True, "classes": classes + ["refused"]}
                raise
            raise Violation("accepted", "a dependency that fits no relation, or several, was accepted")
        kind = [d["kind"] for m in case["spec"]["models"] for d in m["denorms"]][0]
        try:
            if kind == "key":
                info = PROPS["C13"].run(case, backend)
            else:
                info = self.followed(case)
        except Violation as e:
            if e.kind == "declaration-raised":
                e.kind = "refused"
            raise
        return {"nontrivial": info["nontrivial"], "classes": classes + ["accepted", "denorm:" + kind]}

    def followed(self, case):
        with World(case["spec"]) as w:
            w.install()
            marks = Marks(w)
            d0 = w.dump()
            for op in case["ops"] + [["flush"]]:
                if op[0] == "flush":
                    w.flush_and_check()
                    d0 = w.dump()
                    continue
                before = marks.pending()
                w.apply(op)
                d1 = w.dump()
                got = marks.pending() - before
                may = texts(marks.may(d0, d1)) | marks.nowhere(got, d0, d1)
                if got - may:
                    raise Violation("followed-another-relation", "%s marked %s, only %s may be" % (
                        op[0], sorted(got - may, key=str)[:3], sorted(may, key=str)[:6]))
                d0 = d1
            return {"nontrivial": w.stats.get("repaired", 0) > 0}


# ---------------------------------------------------------------- names, key types, inheritance

PLAIN = ["order", "Group", "select", "UPPER", "user", "values", "Trigger", "key", "where", "end", "begin"]
ODD = ["my table", "t-1", "ünï", "1st", "x(y)"]
LONG = "a_name_so_long_that_it_has_to_be_cut_off_somewhere_%s"
BASES = ["C01", "C01", "C01", "C08", "C09", "C10", "C11", "C13", "C13", "C17", "C18", "C05"]


class Names(object):
    def __init__(self, draw):
        self.draw = draw
        self.taken = set()

    def __call__(self, one_in=2, plain=False):
        """A fresh odd name, or None for the usual one.  Django itself cannot have everything as the name of a
        table with many-to-many relations, those get plain ones."""
        if not flag(self.draw, one_in):
            return None
        n = pickf(self.draw, PLAIN + ([] if plain else ODD) + [LONG % x for x in "ab"])
        k = 0
        base = n
        while n.lower() in self.taken:
            k += 1
            n = "%s%d" % (base, k)
        self.taken.add(n.lower())
        return n


def rename(draw, spec, backend):
    tables = Names(draw)
    for mi, m in enumerate(spec["models"]):
        plain = any(r["kind"] == "m2m" for r in m["rels"] + m["denorms"])
        m["table"] = tables(plain=plain) or m["table"]
        cols = Names(draw)
        gen_owner = any(r["kind"] == "gen" for r in m["rels"])
        if flag(draw, 3) and not m.get("orm_only"):
            m["pk"] = pickf(draw, ["int", "auto"] if gen_owner else ["int", "char", "uuid", "auto", "big"])
        if flag(draw, 3):
            m["pkname"] = "nr"
        m["pkcol"] = cols()
        for f in m["fields"]:
            f["column"] = cols()
        for r in m["rels"]:
            if r["kind"] in ("fk", "o2o"):
                r["column"] = cols()
            elif r["kind"] == "m2m" and not r.get("through"):
                r["m2m_table"] = tables(3, True)
            elif r.get("through"):
                r["through_table"] = tables()
                r["through_columns"] = ["from", "To Go"] if flag(draw, 2) else None
        for d in m["denorms"]:
            if d["kind"] == "m2m":
                continue
            d["column"] = cols()
        if m.get("generic") and flag(draw, 2):
            m["generic_names"] = ["kind", "nr_of", "about"]
        if m.get("generic"):
            m["generic_columns"] = [cols(), cols()]
    hide(draw, spec)


def inherited(draw, backend):
    """Two models that get everything from one abstract base class."""
    b = Builder(draw, backend)
    t = b.model(G.SIMPLE_KINDS, 1, 2)
    a = b.model(["pint", "text"], 1, 2)
    rel = b.rel(pickf(draw, ["fk", "fk", "o2o"]), a, t, rn=None)
    reads = b.reads(t)
    has_tree = flag(draw, 3) and backend != "mysql"
    if has_tree:
        b.rel("fk", a, a, rn="kids", null=True)
    c = len(b.spec["models"]) + 1
    # the second one, with the same body
    second = copy.deepcopy(b[a])
    second["name"] = G.NAMES[len(b.spec["models"])]
    for r in second["rels"]:
        if r["to"] == a:
            r["to"] = a + 1
    b.spec["models"].append(second)
    b.model(["pint"], 1, 2)
    assert c == len(b.spec["models"]) - 1
    for i in (a, a + 1):
        b.rel("fk", c, i, rn="items", null=True)
    both = [a, a + 1]
    for _ in range(draw(ints(1, 4))):
        kind = pickf(draw, ["text", "text back", "count", "sum", "key", "cached", "fk", "tree"])
        name = b.fresh("d")
        own = [n for n in b.readable(a) if flag(draw, 2)]
        back = b.reads(c, ["pk"])
        col = [f["name"] for f in b[c]["fields"]][0]
        deps = draw(ints(0, 2))
        if kind in ("key", "cached") and any(x["kind"] in ("key", "cached", "fk", "text") for x in b[a]["denorms"]):
            continue
        for i in both:
            r1 = [r for r in b[i]["rels"] if r["name"] == rel["name"]][0]
            r2 = b[c]["rels"][i - a]
            fwd = b.dep(i, i, r1, "fwd", list(reads))
            bwd = b.dep(i, c, r2, "bwd", list(back))
            fwd["ref"], bwd["ref"] = "label", "name"
            fwd["fk"] = r1["name"]
            if kind == "text":
                d = {"kind": "text", "name": name, "own": own, "deps": [fwd] if deps else []}
            elif kind == "text back":
                d = {"kind": "text", "name": name, "own": own, "deps": [bwd]}
            elif kind == "fk":
                d = {"kind": "fk", "name": name, "to": t, "deps": [fwd], "as_object": bool(deps)}
            elif kind in ("key", "cached"):
                d = {"kind": kind, "name": name, "own": [], "deps": [fwd, bwd][:max(1, deps)]}
            elif kind == "tree":
                if not has_tree:
                    continue
                d = {"kind": "count", "name": name, "owner": i, "rel": b[i]["rels"][-1]["name"]}
            else:
                d = {"kind": kind, "name": name, "owner": c, "rel": r2["name"]}
                if kind == "sum":
                    d["field"] = col
            b[i]["denorms"].append(copy.deepcopy(d))
    if not b[a]["denorms"]:
        for i in both:
            b[i]["denorms"].append({"kind": "count", "name": "d0", "owner": c, "rel": b[c]["rels"][i - a]["name"]})
    for i in both:
        b[i]["abstract"] = "Shared"
    return b.spec


TABLE_NEW = "table-new"


def only_kinds(spec, *kinds):
    return all(d["kind"] in kinds for m in spec["models"] for d in m["denorms"])


@register
class C23(Prop):
    id = "C23"

    def case(self, draw, backend):
        if flag(draw, 4):
            spec = inherited(draw, backend)
            base = "C01"
            if only_kinds(spec, "key"):
                base = "C13"
            elif only_kinds(spec, "cached"):
                base = "C14"
            if base == "C14":
                for m in spec["models"]:
                    m["orm_only"] = bool(m["denorms"])
                    for r in m["rels"] if m["denorms"] else ():
                        r["set_null"] = False
            case = {"spec": spec, "ops": G.history(draw, spec, None, 8)}
            if base == "C14":
                case["ops"] = [PROPS["C14"].tame(spec, o) for o in case["ops"] if o[0] != "txn"]
            if flag(draw, 3) and base != "C14":
                rename_shared(draw, spec)
            return dict(case, base=base, inherited=True)
        base = pickf(draw, BASES)
        if base == "C11" and backend == "sqlite":
            base = "C09"
        case = PROPS[base].case(draw, backend)
        rename(draw, case["spec"], backend)
        return dict(case, base=base)

    def run(self, case, backend):
        try:
            info = PROPS[case["base"]].run(case, backend)
        except NoTables:
            # names of constraints and indexes made up by Django from odd names are not always valid
            return {"classes": ["no tables"], "nontrivial": False}
        info["classes"] = ["as:" + case["base"]] + (["inherited"] if case.get("inherited") else []) + \
            ["pk:" + m["pk"] for m in case["spec"]["models"]] + \
            ["hidden rows" for m in case["spec"]["models"] if m.get("filtered_manager")]
        return info

    def fixed(self, backend):
        """The known finding: a table whose name is that of the changed row in a trigger."""
        out = []
        for name in ("new", "old"):
            spec = {"models": [
                {"name": "Alpha", "table": None, "pk": "auto", "rels": [],
                 "fields": [{"name": "f1", "kind": "int", "null": False, "column": None}],
                 "denorms": [{"kind": "text", "name": "d1", "own": [], "deps": [
                     {"owner": 1, "rel": "r1", "dir": "bwd", "read": ["f2"], "ref": "name", "fk": None, "type": None}]},
                     {"kind": "count", "name": "n1", "owner": 1, "rel": "r1"}]},
                {"name": "Beta", "table": name, "pk": "auto", "denorms": [],
                 "fields": [{"name": "f2", "kind": "int", "null": False, "column": None}],
                 "rels": [{"name": "r1", "kind": "fk", "to": 0, "null": False, "rn": None}]}]}
            out.append({"base": "C01", "spec": spec, "ops": [
                ["create", 0, "save", {}, {}], ["create", 0, "save", {}, {}], ["create", 1, "save", {"f2": 1}, {"r1": 0}],
                ["flush"], ["update", 1, 0, "qs", {"f2": 2}, {"r1": 1}], ["flush"], ["delete", 1, 0, "inst"]]})
        return out

    def known(self, v, case, backend):
        if backend.startswith("post") and v.kind == "operation-raised" and "is ambiguous" in v.detail and \
                any(m["table"] in ("new", "old") for m in case["spec"]["models"]):
            return TABLE_NEW
        return PROPS[case["base"]].known(v, case, backend)


def rename_shared(draw, spec):
    """Table names may differ, the columns come from the base."""
    tables = Names(draw)
    for m in spec["models"]:
        m["table"] = tables()
