"""Writes properties.jsonl (one source for ids, titles and statements)."""
import json, os

TR = "denorm/db/{sqlite3,mysql,postgresql}/triggers.py"
TRF = ["denorm/db/base.py", "denorm/db/sqlite3/triggers.py", "denorm/db/mysql/triggers.py", "denorm/db/postgresql/triggers.py"]
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


MARK = [{"name": "dirty marker table", "meaning": "rows whose denormalised values must be recomputed", "where": "denorm/models.py"}]
FIXED = "The suite replays one hand-written scenario per feature on one fixed schema; it never varies the "

p("C01", "A flush makes every denormalised value current",
  "After any sequence of committed writes, flushing terminates without error and leaves every callback-computed field of every row equal to its function evaluated on the data now stored. Flushing never changes any column or relation that is not denormalised, and afterwards no row is left marked as needing recomputation.",
  ["programs", "histories", "configurations"], "all generated model schemas mixing every kind of relation and denormalised field, all histories of writes through the ORM, in bulk and in raw SQL, on every supported database",
  FIXED + "schema, the mix of field kinds or the order of writes, and most scenarios stop after one write and one flush.",
  ["denorm/denorms.py", "denorm/dependencies.py", "denorm/models.py"] + TRF,
  [("row triggers mark dependent rows", TR), ("flush loop saves marked rows until none is left", "denorm/denorms.py:flush")],
  ["stored rows after flush", "marker table after flush"], MARK)

p("C02", "Values read over a forward foreign key follow the referenced row",
  "When a computed field depends on the row its foreign key or one-to-one field points to, any change of that row, and any change of which row is pointed to, is reflected after the next flush in every row pointing to it. This holds whether the change came through an instance save, a queryset update or delete, or SQL executed directly.",
  ["histories", "inputs", "configurations"], "all histories of updates, re-pointing and deletions on forward relations, nullable or not, one or several keys to the same model, all column types of the referenced row",
  FIXED + "way the referenced row is changed, its column types, NULL keys or several keys to one model.",
  ["denorm/dependencies.py"] + TRF, [("forward dependency triggers on the referenced table", "denorm/dependencies.py:CallbackDependOnRelated.get_triggers")],
  ["stored rows after flush"], MARK)

p("C03", "Values read over a reverse foreign key follow all referring rows",
  "When a computed field depends on the rows that point to its row, creating, changing, re-pointing, un-pointing or deleting such a row is reflected after the next flush in the row pointed to before and in the row pointed to afterwards. This holds for foreign keys and one-to-one fields, NULL or not, and for every way of writing.",
  ["histories", "inputs", "configurations"], "all histories of create, update, re-parent, set NULL and delete on referring rows, singly, in bulk and in raw SQL",
  FIXED + "re-parenting, NULL keys, bulk moves or cascades.",
  ["denorm/dependencies.py"] + TRF, [("backward dependency triggers on the referring table", "denorm/dependencies.py:CallbackDependOnRelated.get_triggers")],
  ["stored rows after flush"], MARK)

p("C04", "Values read over a many-to-many relation follow links and linked rows",
  "When a computed field depends on rows linked through a many-to-many relation, adding, removing, replacing, clearing or re-pointing links from either side, and changing or deleting a linked row, is reflected after the next flush in every row linked before or after. This holds in both directions, with automatic and explicit link tables and for relations of a model to itself.",
  ["histories", "inputs", "configurations"], "all histories of link operations from both sides and on the link table itself, and of changes to linked rows",
  FIXED + "side, link operation or link table, and never updates a link row in place.",
  ["denorm/dependencies.py", "denorm/helpers.py"] + TRF, [("link table triggers and nested select over the link table", "denorm/dependencies.py:CallbackDependOnRelated.get_triggers")],
  ["stored rows after flush"], MARK)

p("C05", "Values read over a generic relation follow the attached rows",
  "When a computed field depends on rows attached through a generic relation, attaching, changing, moving to another object of the same or another model, and detaching such a row is reflected after the next flush in the object it was attached to before and afterwards. Several models may share one table of attached rows, with equal primary keys, without missing each other's changes. A field of the attached row that depends on the object it is attached to follows changes of that object in the same way.",
  ["histories", "inputs", "configurations"], "all histories of creating, editing, moving and deleting attached rows with two owner models sharing primary key values",
  FIXED + "moves between models or objects with colliding ids.",
  ["denorm/dependencies.py"] + TRF, [("generic relation triggers with content type condition", TR)],
  ["stored rows after flush"], MARK)

p("C06", "Changes propagate through chains and trees of any depth",
  "When computed fields depend on other rows' computed fields, one flush propagates a change to all transitive dependents, over any acyclic chain of relations including parent/child trees of one model. The flush terminates and leaves all levels consistent whatever the order in which rows were written, moved or removed.",
  ["histories", "programs"], "all chains up to four hops over mixed relation kinds and all tree histories with re-parenting on one self-related model",
  "The suite has one two-level chain and one small tree; depth, order and re-parenting below a changed ancestor are not varied.",
  ["denorm/denorms.py", "denorm/dependencies.py"] + TRF, [("flush repeats until no marker is left", "denorm/denorms.py:flush")],
  ["stored rows after flush"], MARK)

p("C07", "Changes to a row's own columns are noticed however they are written",
  "Any change of any own column of a row, of any column type and between any two different values including NULL, is reflected in the row's computed fields after the next flush, even when written by a bulk update, bulk insert or SQL that bypasses the model's save. Two values count as different whenever the stored values differ, including only in case, accents or trailing blanks.",
  ["inputs", "histories", "configurations"], "all column types, all pairs of old and new values from small adversarial domains, all write paths on every database",
  FIXED + "column type or value; NULL transitions and case-only changes are never written.",
  TRF + ["denorm/denorms.py"], [("self triggers comparing OLD and NEW column by column", TR)],
  ["stored rows after flush"], MARK)

p("C08", "Denormalised foreign keys and many-to-many fields follow their function",
  "A denormalised foreign key or many-to-many field holds, after any committed writes and a flush, exactly the row or set of rows its function returns, whether the function returns model instances, primary keys or nothing. Repeated saving or flushing neither adds nor loses links.",
  ["histories", "inputs", "configurations"], "all histories over models with denormalised foreign keys and link sets, function results as instances, keys, None and empty sets",
  "The suite covers one denormalised key and one link set and never flushes after the dependency's own removal.",
  ["denorm/denorms.py", "denorm/fields.py"], [("pre_save and m2m save handlers", "denorm/fields.py, denorm/denorms.py:many_to_many_pre_save")],
  ["stored keys and link tables after flush"])

p("C09", "Count fields always equal the number of related rows",
  "At every moment, without any flush, a count field of every stored row equals the number of rows currently related to it. This holds after each statement that creates, deletes, re-points or bulk-changes related rows, by ORM or raw SQL, and inside open transactions.",
  ["histories", "programs", "configurations"], "all histories of writes on counted relations, several counts per model and per related model, nullable keys, cascades, self relations where the database allows",
  "The suite adds and deletes one related object; re-parenting in bulk, NULL keys, raw SQL and several counters at once are not tried.",
  ["denorm/denorms.py", "denorm/fields.py"] + TRF, [("increment and decrement triggers", "denorm/denorms.py:AggregateDenorm.get_triggers")],
  ["stored count after every statement"])

p("C10", "Sum fields always equal the sum over related rows",
  "At every moment, without any flush, a sum field of every stored row equals the sum of the given column over the rows currently related to it, taking missing values as nothing. This holds after each statement that creates, deletes, re-points or changes related rows or their summed column, by ORM or raw SQL.",
  ["histories", "inputs", "configurations"], "all histories of writes on summed relations with zero, positive, large and NULL summands",
  "The suite adds and changes single rows with small constants; NULL summands and bulk or raw changes are not tried.",
  ["denorm/denorms.py", "denorm/fields.py"] + TRF, [("increment and decrement triggers", "denorm/denorms.py:SumDenorm")],
  ["stored sum after every statement"])

p("C11", "Filtered counts and sums include exactly the matching rows",
  "Where conditions are supported, a count or sum declared with filter or exclude conditions equals at every moment the same aggregate computed by querying the related rows with those conditions. Rows that start or stop matching by any update are added or removed exactly once, and where conditions are not supported declaring one is refused instead of ignored.",
  ["histories", "inputs", "programs", "configurations"], "all combinations of filter and exclude lookups over generated columns, all histories moving rows across the condition and NULL boundary",
  "The suite uses two fixed filters; lookup kinds, exclude on NULL and combinations are not varied.",
  ["denorm/denorms.py", "denorm/fields.py"] + TRF, [("conditions compiled into trigger bodies for OLD and NEW", "denorm/denorms.py:AggregateDenorm.get_triggers")],
  ["stored aggregate after every statement"])

p("C12", "Saving an outdated instance never damages counts or sums",
  "Saving a model instance, however long ago it was loaded and whatever happened to related rows meanwhile, leaves its count and sum fields equal to the true aggregate. This holds also when another connection commits changes to related rows between any two statements of the save.",
  ["schedules", "histories", "configurations"], "all points between the statements of a save at which another connection commits a related change, all staleness histories in one connection",
  "The suite saves one stale object in one connection; a concurrent commit during the save is never produced.",
  ["denorm/fields.py"], [("pre_save of aggregate fields", "denorm/fields.py:AggregateField.pre_save")],
  ["stored aggregate after the save"])

p("C13", "Cache keys change exactly when the row or a dependency changes",
  "A cache key field receives a new value, immediately and without flush, whenever its row is saved or a row it depends on is created, changed, attached, detached or deleted, by any means. Only direct updates of the row's own columns that bypass its save may go unnoticed. Rows without a relation to the changed data keep their key.",
  ["histories", "programs", "configurations"], "all dependency kinds and all write paths; key values compared before and after every single statement",
  "The suite checks a few single changes; moves between parents, raw SQL and that unrelated keys stay are not covered.",
  ["denorm/denorms.py", "denorm/fields.py", "denorm/dependencies.py"] + TRF, [("cache key triggers and pre_save", "denorm/dependencies.py:CacheKeyDependOnRelated")],
  ["stored keys before and after each statement"])

p("C14", "A cached attribute of a freshly loaded object is current",
  "The value seen on a freshly loaded object for an attribute declared as cached equals its function evaluated on the data stored at that moment. This holds whatever was cached before, for all objects and attributes sharing one cache, as long as the row's own columns are written only by saving.",
  ["histories", "programs"], "all histories of writes and reloads with several models and attributes sharing one cache",
  "The suite has one cached attribute on one model and two reloads.",
  ["denorm/fields.py"], [("cache entry keyed by the cache key column", "denorm/fields.py:CacheWrapper")],
  ["attribute value right after loading"])

p("C15", "Rolled back work leaves no trace and committed work is never forgotten",
  "After a transaction or savepoint is rolled back, counts, sums, cache keys, computed values and pending recomputation are as if its writes had never happened; a flush inside it is undone with it. After a commit, every effect the writes must have on denormalised data is present or pending, for any nesting of savepoints.",
  ["histories", "fault_sequences"], "all nestings of transactions and savepoints up to depth three, each committed or rolled back, with writes and flushes inside",
  "The suite never rolls anything back.",
  ["denorm/denorms.py", "denorm/models.py"] + TRF, [("triggers write in the same transaction", TR)],
  ["stored rows, markers and aggregates after rollback and after a following flush"], MARK)

p("C16", "An interrupted flush loses no pending work",
  "If a flush stops with an error at any point - a failing callback, a database error in any of its statements, a lost connection - or the process dies there, then a later undisturbed flush still brings every denormalised value up to date. The interruption never alters data that is not denormalised.",
  ["crash_points", "fault_sequences", "histories"], "every statement of a flush as failure point, for generated schemas, histories and repeated failures",
  "The suite has no failing flush.",
  ["denorm/denorms.py"], [("marker removed only after its row was saved", "denorm/denorms.py:flush")],
  ["stored rows after the following flush"], MARK)

p("C17", "Only rows whose value can have changed are recomputed",
  "A write marks for recomputation only rows that changed themselves or are related, before or after it, to a changed row through a declared dependency; a write that changes no value marks nothing. A flush with nothing pending recomputes and writes nothing.",
  ["histories", "programs", "configurations"], "all generated schemas and single writes including those that leave all values equal; marker set compared with the set computed from row differences",
  "The suite checks the number of recomputations in two scenarios only.",
  TRF + ["denorm/dependencies.py"], [("trigger conditions and nested selects", TR)],
  ["markers after each write", "statements issued by an idle flush"], MARK)

p("C18", "Skipped columns do not trigger work, all other columns still do",
  "A change limited to columns named in a skip list of a dependency or of a denormalised field, or in the model's list of always skipped columns, triggers no recomputation on their account. Changes to any other column still trigger it, for every other dependency and field on the same model regardless of their skip lists.",
  ["programs", "histories", "configurations"], "all combinations of skip lists on dependencies, fields and models sharing one table, all single column changes",
  "The suite uses one skip list per table, so interaction of several lists is never seen.",
  TRF + ["denorm/fields.py", "denorm/dependencies.py"], [("columns left out of the trigger condition", "denorm/db/base.py:Trigger")],
  ["markers and recomputed values after single column changes"], MARK)

p("C19", "A rebuild restores every selected denormalised value",
  "Whatever wrong values are stored in denormalised fields and whatever is pending, rebuilding everything makes every computed value, count and sum correct and leaves nothing pending. Rebuilding a selection by app, model or field repairs at least that selection, and base data never changes.",
  ["inputs", "histories", "configurations"], "all corruptions of denormalised columns and link sets written while triggers are absent or present, all selections",
  "The suite rebuilds two models from default values.",
  ["denorm/denorms.py", "denorm/management/commands/denorm_rebuild.py"], [("mark all rows, then flush", "denorm/denorms.py:rebuildall")],
  ["stored values after rebuild"], MARK)

p("C20", "Installing and dropping triggers can be repeated and touches nothing else",
  "Installing leaves a database that tracks changes as described by the current models, and may be repeated at any time, also after models changed, without error or double effects. Dropping removes every trigger that installing created, leaves all data and all triggers with names not starting with denorm_ alone, and both act on the chosen database only.",
  ["histories", "configurations", "programs"], "all sequences of install, drop, schema change and user triggers with arbitrary names over two databases",
  "The suite installs and drops once per test on one database without foreign triggers.",
  TRF + ["denorm/management/commands/denorm_init.py", "denorm/management/commands/denorm_drop.py"], [("trigger set install and drop", TR + ":TriggerSet")],
  ["trigger catalogue and behaviour after each command"])

p("C21", "The printed SQL creates exactly the installed triggers",
  "Executing the SQL that the SQL-printing command outputs creates the same triggers, with the same definitions and effects, as installing them directly. This holds for every schema including conditions with text, dates, booleans, NULL and special characters.",
  ["programs", "inputs", "configurations"], "all generated schemas with condition values from adversarial domains; catalogue definitions compared",
  "The suite only checks that the command runs.",
  ["denorm/management/commands/denorm_sql.py"] + TRF, [("SQL text with parameters inserted", "denorm/management/commands/denorm_sql.py")],
  ["trigger definitions in the catalogue"])

p("C22", "A dependency resolves to exactly one relation or is refused",
  "Declaring a dependency succeeds exactly when one and only one foreign key, many-to-many or generic relation between the two models fits the given name and direction, and then that relation is the one followed. Otherwise a ValueError is raised instead of guessing, however the other model is referred to.",
  ["programs", "inputs"], "all pairs of models with up to four relations in both directions, all combinations of name and direction arguments, all ways to name the model",
  "The suite tests two ambiguous declarations.",
  ["denorm/dependencies.py", "denorm/helpers.py"], [("candidate search and filter", "denorm/dependencies.py:DependOnRelated.resolved_model")],
  ["class creation result and behaviour of the resolved dependency"])

p("C23", "Table names, column names and key types make no difference",
  "The guarantees for computed values, counts, sums and cache keys hold for every legal table name, column name and primary key type of the models involved, including reserved words, upper case, spaces, long names sharing a prefix, and integer, text and UUID keys. The same holds for models whose denormalised fields come from a shared abstract base class or which hide rows by default.",
  ["programs", "inputs", "configurations"], "all assignments of table and column names from adversarial domains and of key types to generated schemas",
  "The suite's models use default lower case names and integer keys, apart from one custom column.",
  ["denorm/dependencies.py", "denorm/denorms.py", "denorm/fields.py"] + TRF, [("identifiers inserted into trigger SQL", TR)],
  ["installation succeeds; stored values after writes and flush"])

p("C24", "Saving an instance stores and exposes freshly computed values",
  "Right after an instance is created or saved, every computed field of it holds, both in the database and on the instance in memory, its function evaluated on that instance, without any flush. Values assigned by hand to denormalised fields are never kept, and count and sum fields in memory equal the stored ones.",
  ["histories", "inputs", "programs"], "all schemas and histories, all ways of saving an instance, arbitrary values assigned to denormalised attributes before saving",
  "The suite checks one or two fields after creation, never with assigned values on all kinds of fields.",
  ["denorm/fields.py", "denorm/denorms.py"], [("pre_save computes the value", "denorm/fields.py:DenormDBField.pre_save")],
  ["instance attributes and stored row after save"])

p("C25", "Request and command integration flush completely and stay harmless",
  "After any request handled with the middleware installed, and after the flush command or one round of the daemon loop, all denormalised values are current and committed. The middleware never alters the response, and a database error while flushing neither fails the request nor loses pending work.",
  ["histories", "fault_sequences", "configurations"], "all request histories with writes, errors raised by views and database errors during the flush; daemon rounds between writes; pid file states",
  "The suite calls the middleware once and the daemon with a switch that never flushes.",
  ["denorm/middleware.py", "denorm/management/commands/denorm_flush.py", "denorm/management/commands/denorm_daemon.py", "denorm/daemon.py"],
  [("process_response calls flush", "denorm/middleware.py"), ("daemon loop", "denorm/management/commands/denorm_daemon.py")],
  ["response and stored rows after the request or round"])

p("C26", "Writes committed while a flush runs are not lost",
  "A write that another connection commits between any two statements of a running flush is never lost: its data stays as written, and once no flush is running one further flush makes every denormalised value current. The running flush itself still ends.",
  ["schedules", "histories", "configurations"], "every statement of a flush as interleaving point for a generated write committed by a second connection",
  "The suite is single-connection.",
  ["denorm/denorms.py"], [("marker deletion after save", "denorm/denorms.py:flush")],
  ["stored rows after a further flush"], MARK)

p("C27", "Database columns created through migrations match the models",
  "For every model with denormalised fields, the migration generated from it creates a table with the same columns as creating the model's table directly, and generating migrations again right afterwards finds no changes. Rows and computed values behave the same in both tables.",
  ["programs", "configurations"], "all generated schemas with all kinds of denormalised fields and options, written to migration source and loaded back",
  "The suite ships one hand-made set of migrations and never generates one.",
  ["denorm/fields.py"], [("deconstruct of denormalised fields", "denorm/fields.py")],
  ["generated migration operations and resulting table columns"])

p("C28", "Proxy models behave like the models they stand for",
  "All guarantees for computed values, counts, sums and cache keys hold unchanged when rows are written through a proxy model, and when a foreign key or many-to-many relation points to a proxy of the model.",
  ["programs", "histories", "configurations"], "all generated schemas with proxies of any model as writer and as target of relations, all histories",
  "The suite has one proxy model and one count over it.",
  ["denorm/dependencies.py", "denorm/denorms.py"] + TRF, [("columns watched by a trigger", "denorm/db/base.py:get_fields_with_model")],
  ["stored rows after writes and flush"], MARK)

p("C29", "Leaving out triggers on own rows is safe when rows are saved",
  "With the setting that leaves out the triggers on a model's own table, computed values are current after a flush as long as rows having computed fields are written by saving instances; other rows may be written in any way. Counts, sums and cache keys are as right as without the setting. A setting that is present but off changes nothing.",
  ["programs", "histories", "configurations"], "all generated schemas and histories in which rows having computed fields are created and changed through instances only",
  "The suite never uses the setting.",
  ["denorm/dependencies.py", "denorm/denorms.py"] + TRF, [("self trigger left out", "denorm/denorms.py:BaseCallbackDenorm.get_triggers")],
  ["stored rows after writes and flush"], MARK)

p("C30", "Loading a fixture leads to the same data and right values",
  "Loading a fixture of previously dumped rows, in any order and with whatever denormalised values it contains, restores all other data, leaves every count and sum right, and after one flush every computed value is current. Later writes are tracked as if the rows had been created one by one.",
  ["inputs", "histories", "programs"], "all generated schemas and histories dumped before or after a flush, objects in any order, loaded into empty tables or over changed rows",
  "The suite never loads a fixture.",
  ["denorm/fields.py", "denorm/denorms.py"] + TRF, [("raw saves", "denorm/denorms.py:many_to_many_pre_save")],
  ["stored rows after loading and flush"], MARK)

p("C31", "Computed values of every column type are stored and compared right",
  "A computed field may be of any column type, nullable or not, and its function may return any value the column accepts, including NULL, negative and fractional numbers, times and long texts. The stored value always equals the function's result after a flush, and dependents of that field follow it.",
  ["programs", "inputs", "configurations"], "all column types on every database, functions returning values from the whole domain of the column, chains reading such fields",
  "The suite computes short texts and small integers only.",
  ["denorm/fields.py", "denorm/dependencies.py"] + TRF, [("field class built on the column type", "denorm/fields.py:denormalized"), ("comparison of old and new values in triggers", TR)],
  ["stored rows after save and flush"], MARK)

p("C32", "Two flushes at the same time do no harm",
  "A second flush that runs from start to end between any two statements of a running flush changes no data that is not denormalised, and both end without an error. Once neither is running, one further flush makes every denormalised value current.",
  ["schedules", "histories", "configurations"], "every statement of a flush as interleaving point for a whole second flush on another connection, over generated schemas including chains and trees",
  "The suite is single-connection.",
  ["denorm/denorms.py"], [("marker deletion after save", "denorm/denorms.py:flush")],
  ["stored rows after a further flush"], MARK)

p("C33", "Foreign keys to unique columns other than the primary key are followed",
  "All guarantees for computed values, counts, sums, cache keys and cached attributes hold unchanged when a foreign key or one-to-one field is declared with to_field, so that it contains values of another unique column, also when these values are primary keys of other rows.",
  ["programs", "histories", "configurations"], "generated schemas of other properties with some of their foreign keys turned into keys to a unique integer, text or UUID column with the same or a different database name, plus their histories",
  "No foreign key of the suite is declared with to_field.",
  ["denorm/dependencies.py", "denorm/denorms.py"], [("relation columns in triggers", "denorm/dependencies.py:get_triggers"), ("owner of a counted row", "denorm/denorms.py:AggregateDenorm.get_triggers")],
  ["stored rows after flush", "counts, sums and keys after every statement"], MARK)

p("C34", "Models of several apps, also of the same name, are told apart",
  "All guarantees for computed values, counts, sums, cache keys, rebuilding and the resolution of dependencies hold unchanged when the models belong to different apps, even if models of different apps have the same name. A dependency that names a model without its app means the one in the app of the dependent model.",
  ["programs", "histories", "configurations"], "generated schemas of other properties with their models spread over two apps and names shared between them, plus their histories",
  "All models of the suite are in one app.",
  ["denorm/helpers.py", "denorm/dependencies.py", "denorm/denorms.py"] + TRF, [("comparing the target of a relation with a model", "denorm/helpers.py:points_to"), ("names of triggers", "denorm/db/base.py:Trigger.name")],
  ["declaration accepted, stored rows after flush", "counts, sums and keys after every statement"], MARK)

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
