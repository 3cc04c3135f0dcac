"""How much each check does (no imports of the code under test here)."""
import os
import re

RULE_FLUSH = ("a case is a generated schema plus a generated history; non-trivial when at least one flush of it had to "
              "change at least one stored value (a value was outdated before the flush by the oracle)")

ALL = ["sqlite", "mysql", "postgres", "postgis"]
W2 = {"sqlite": 2, "mysql": 3, "postgres": 2, "postgis": 1}

PLAN = {}

FINDINGS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "KNOWN_FINDINGS.txt")


def known_findings(prop):
    """{key: description} of the findings listed for a property: lines `known: property=ID key=KEY text`."""
    out = {}
    with open(FINDINGS) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def plan(id, quick, thorough=None, backends=ALL, workers=None, rule=RULE_FLUSH, **kw):
    PLAN[id] = dict(backends=backends, workers=workers or W2, rule=rule,
                    examples={"quick": quick, "thorough": thorough or {k: v * 10 for k, v in quick.items()}}, **kw)


plan("C02", {"sqlite": 500, "*": 360})
for _p in ("C03", "C04", "C05", "C06", "C07", "C08"):
    plan(_p, {"sqlite": 500, "*": 360})
RULE_AGG = ("a case is a generated schema plus a generated history, all aggregates compared after every operation; "
            "non-trivial when the compared aggregates took at least three different values")
plan("C09", {"sqlite": 500, "*": 360}, rule=RULE_AGG)
plan("C10", {"sqlite": 500, "*": 360}, rule=RULE_AGG)
plan("C11", {"sqlite": 60, "*": 480}, rule=RULE_AGG + "; on sqlite, where conditions are not supported, when the declaration was refused",
     workers={"sqlite": 1, "mysql": 3, "postgres": 3, "postgis": 1})
NOT_APPLICABLE = {}
plan("C12", {"sqlite": 500, "*": 360}, rule=RULE_AGG)
plan("C13", {"sqlite": 500, "*": 360}, rule="a case is a generated schema with cache keys plus a history; every key is compared before and after every operation; non-trivial when at least one key had to change and at least one had to stay")
plan("C14", {"sqlite": 500, "*": 360}, rule="a case is a generated schema with cached attributes plus a history; all objects are loaded after every operation; non-trivial when a cached attribute of some object had at least two different right values")
plan("C01", {"sqlite": 500, "*": 360})
plan("C15", {"sqlite": 500, "*": 360}, rule="a case is a generated schema plus a history of nested transactions; non-trivial when at least one transaction was rolled back (whole state compared) and at least one flush had to change a stored value")
plan("C16", {"sqlite": 60, "*": 40}, level="fault_enumeration", rule="a case is a generated schema, a history and fault kinds; the history is replayed and the flush broken at each statement or callback call (evenly spaced 20 when there are more); non-trivial when values were outdated before the flush and at least two points were tried")
plan("C17", {"sqlite": 500, "*": 360}, rule="a case is a generated schema plus a history; the rows marked by each operation are compared with those the difference it made allows; non-trivial when some rows were marked and some were not")
plan("C18", {"sqlite": 500, "*": 360}, rule="a case is a generated schema with skip lists plus a history; non-trivial when some operation changed only skippable columns of a row and some flush had to change a stored value")
plan("C19", {"sqlite": 500, "*": 360}, rule="a case is a generated schema, a history, wrong values written over denormalised data and a rebuild of everything or a selection; non-trivial when at least one value was overwritten and more than one row exists")

plan("C20", {"sqlite": 300, "*": 150}, rule="a case is a schema, a varied declaration of it and a sequence of installs, drops, foreign triggers, failing and rolled back installs and writes on two databases, all triggers compared after every step; non-trivial when at least two kinds of such steps were met and writes were tracked afterwards")
plan("C21", {"sqlite": 300, "*": 200}, rule="a case is a schema; the printed SQL is executed and the triggers compared with the installed ones, then a history is run on them; non-trivial when there is a trigger for a count, sum or computed field")
plan("C22", {"sqlite": 600, "*": 350}, rule="a case is two or three models with up to four relations and one declared dependency; non-trivial when it had to be refused, or when it was followed and a flush had to change a stored value (a key had to change and another to stay, for cache keys)")
plan("C23", {"sqlite": 400, "*": 250}, rule="a case is a case of another property with odd table and column names, other key types, hiding managers, or of two models sharing an abstract base; non-trivial as for that property")
plan("C24", {"sqlite": 500, "*": 360}, rule="a case is a schema and a history with instances saved in many ways after wrong values were assigned to their denormalised attributes; non-trivial when at least one such save happened")
plan("C26", {"sqlite": 120, "*": 80}, rule="a case is a schema, a history and a write; the history is replayed and the write committed by a second connection before each statement of the flush (evenly spaced 25 when there are more); non-trivial when values were outdated before the flush and the write got through at least once")
plan("C25", {"sqlite": 600, "*": 400}, rule="a case is a schema and a sequence of requests through Django's handler, flush commands and daemon runs, each with writes; non-trivial when a value was outdated before one of them flushed")
plan("C27", {"sqlite": 300, "*": 160}, rule="a case is a schema, optionally an earlier version of it, and a history; migrations are generated, written as source, loaded and applied, the tables compared with directly created ones and the history run on them, at the end also through the models of the migration state; non-trivial when a flush had to change a stored value")
plan("C28", {"sqlite": 400, "*": 250}, rule="a case is a schema with proxy models, relations to them and a history partly written through them; non-trivial when a flush had to change a stored value and a proxy was used")
plan("C29", {"sqlite": 400, "*": 250})
plan("C30", {"sqlite": 300, "*": 200}, rule="a case is a schema and a history; all rows are dumped to a fixture in any order and loaded into emptied or changed tables; non-trivial when more than two rows were loaded")
plan("C31", {"sqlite": 400, "*": 250})
plan("C32", {"sqlite": 60, "*": 40}, rule="a case is a schema and a history; the history is replayed and a second flush run to its end on another connection before each statement of the flush (evenly spaced 25 when there are more); non-trivial when values were outdated before the flush and the second flush got through at least once")
plan("C33", {"sqlite": 400, "*": 250}, rule="a case is a schema with relations to unique columns other than the primary key plus a history; non-trivial when a flush had to change a stored value and some computed field, count, sum or key follows such a relation")
plan("C34", {"sqlite": 500, "*": 300}, rule="a case is a schema with models in two apps, some of the same name, plus a history; non-trivial when a flush had to change a stored value, or whatever makes a case of the underlying check non-trivial, and both apps have models")
