From fcfa9bd5004d28e497c813fcf94f79ed6f30a371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:54 +0000
Subject: [PATCH 01/34] fix: resolve dependencies over relations declared by
 model name

A dependency on a model class was refused with a ValueError when the
relation between the two models was declared with the name of the model
and that name was not resolved yet.
---
 denorm/helpers.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/denorm/helpers.py b/denorm/helpers.py
index 54d2be7..1d0f9ea 100644
--- a/denorm/helpers.py
+++ b/denorm/helpers.py
@@ -12,6 +12,20 @@ def remote_field_model(field):
     if hasattr(field, 'rel') and field.rel:
         return field.rel.to
 
+
+def points_to(field, model):
+    """
+    Tells if the relation ``field`` points to ``model``. Also works if the relation
+    was declared with the name of the model and that name was not resolved yet.
+    """
+    remote_model = remote_field_model(field)
+    if isinstance(remote_model, six.string_types):
+        if '.' not in remote_model:
+            remote_model = '%s.%s' % (field.model._meta.app_label, remote_model)
+        return remote_model.lower() == ('%s.%s' % (model._meta.app_label, model._meta.object_name)).lower()
+    return repr(remote_model).lower() == repr(model).lower()
+
+
 def find_fks(from_model, to_model, fk_name=None):
     """
     Finds all ForeignKeys on 'from_model' pointing to 'to_model'.
@@ -21,7 +35,7 @@ def find_fks(from_model, to_model, fk_name=None):
     fkeys = [x for x in from_model._meta.fields if isinstance(x, models.ForeignKey)]
 
     # filter out all FKs not pointing to 'to_model'
-    fkeys = [x for x in fkeys if repr(remote_field_model(x)).lower() == repr(to_model).lower()]
+    fkeys = [x for x in fkeys if points_to(x, to_model)]
 
     # if 'fk_name' was given, filter out all FKs not matching that name, leaving
     # only one (or none)
@@ -45,7 +59,7 @@ def find_m2ms(from_model, to_model, m2m_name=None):
     m2ms = list(from_model._meta.many_to_many) + private_fields
 
     # filter out all M2Ms not pointing to 'to_model'
-    m2ms = [x for x in m2ms if repr(remote_field_model(x)).lower() == repr(to_model).lower()]
+    m2ms = [x for x in m2ms if points_to(x, to_model)]
 
     # if 'm2m_name' was given, filter out all M2Ms not matching that name, leaving
     # only one (or none)
-- 
2.43.0


From 10608bb3865d8d0e5b9f71b66246f2ce6ba3e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:54 +0000
Subject: [PATCH 02/34] fix: notice case-only and accent-only changes on MySQL

The update triggers compared text columns with the collation of the
column, so changes between values the collation treats as equal were
missed. Compare bytewise instead.
---
 denorm/db/mysql/triggers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 7ad85b7..7da30e8 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -83,7 +83,9 @@ class Trigger(base.Trigger):
             for field, native_type in self.fields:
                 field = qn(field)
                 # TODO: find out if we need to compare some fields as text like in postgres
-                conditions.append("(NOT(OLD.%(f)s <=> NEW.%(f)s))" % {'f': field})
+                # Compare bytewise, the collation of text columns may treat
+                # different values as equal.
+                conditions.append("(NOT(BINARY OLD.%(f)s <=> BINARY NEW.%(f)s))" % {'f': field})
 
         if conditions:
             cond = " OR ".join(conditions)
-- 
2.43.0


From 1c5e27b55726ddd3bad3ede5fc0cc13d3daac8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:08 +0000
Subject: [PATCH 03/34] fix: create instances with a preset primary key and a
 denormalised many-to-many field

The links were written before the row itself when the primary key was
known in advance, which failed. New rows get their links after they are
stored, existing code takes care of that.
---
 denorm/denorms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index f102a0f..2c5a988 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -19,8 +19,10 @@ def many_to_many_pre_save(sender, instance, **kwargs):
     """
     Updates denormalised many-to-many fields for the model
     """
-    if instance.pk:
-        # Need a primary key to do m2m stuff
+    if instance.pk and not instance._state.adding:
+        # Need a primary key and a row in the database to do m2m stuff.
+        # New instances may have a primary key already, many_to_many_post_save
+        # takes care of them.
         for m2m in sender._meta.local_many_to_many:
             # This gets us all m2m fields, so limit it to just those that are denormed
             if hasattr(m2m, 'denorm'):
-- 
2.43.0


From 609f6c29c39ec2f9aa325c876004d5d73283b21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:08 +0000
Subject: [PATCH 04/34] fix: track dependencies of denormalised many-to-many
 fields

No triggers were created for denormalised many-to-many fields, so they
were updated only when their own instance was saved.
---
 denorm/denorms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 2c5a988..64c07cd 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -72,7 +72,7 @@ def get_alldenorms():
     alldenorms = []
     for model in gmodels.get_models(include_auto_created=True):
         if not model._meta.proxy:
-            for field in model._meta.fields:
+            for field in list(model._meta.fields) + list(model._meta.many_to_many):
                 if hasattr(field, 'denorm'):
                     if not field.denorm.model._meta.swapped:
                         alldenorms.append(field.denorm)
-- 
2.43.0


From 9eebafe63e637236325634a0ed0b0fb0ba36b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:08 +0000
Subject: [PATCH 05/34] fix: find the related manager of aggregate fields when
 installing triggers

With a foreign key declared by model name on the last model of a project
the related manager was never found and installing triggers failed.
---
 denorm/denorms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 64c07cd..78d6908 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -379,6 +379,10 @@ class AggregateDenorm(Denorm):
 
         qn = self.get_quote_name(using)
 
+        # the related manager may have become available only after the last
+        # ``class_prepared`` signal
+        self.setup(sender=None)
+
         try:  # Django>=1.9
             related_field = self.manager.field
         except AttributeError:
-- 
2.43.0


From 005c888dc4268a97f723c35d19421553188280ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:11:08 +0000
Subject: [PATCH 06/34] fix: allow NULL in the column added up by a SumField

A NULL in a related row set the sum to NULL and made the write fail.
---
 denorm/denorms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 78d6908..f96652a 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -475,12 +475,12 @@ class SumDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + NEW.%s" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - OLD.%s" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
-- 
2.43.0


From c8410e2215663b3e2fefecc47dc10c6129321d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:14 +0000
Subject: [PATCH 07/34] fix: group the content type condition of generic
 relations on PostgreSQL

Without the parentheses the OR took precedence over the check that something
changed, so updates that changed nothing still fired the trigger.
---
 denorm/db/postgresql/triggers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 9159809..8c9206b 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -102,7 +102,7 @@ class Trigger(base.Trigger):
         if ct_field:
             ct_field = qn(ct_field)
             if event == "UPDATE":
-                conditions.append("(OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s)" % {'ctf': ct_field, 'ct': content_type})
+                conditions.append("((OLD.%(ctf)s = %(ct)s) OR (NEW.%(ctf)s = %(ct)s))" % {'ctf': ct_field, 'ct': content_type})
             elif event == "INSERT":
                 conditions.append("(NEW.%s = %s)" % (ct_field, content_type))
             elif event == "DELETE":
-- 
2.43.0


From 90f3a9e77e34e7ec4fca4c14171033ebc2f72e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:14 +0000
Subject: [PATCH 08/34] fix: allow cached fields without dependencies

---
 denorm/fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index b8acb2a..0e404ab 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -313,7 +313,7 @@ class CachedField(CacheKeyField):
         self.cache = cache
         super(CachedField, self).__init__(*args, **kwargs)
         if func and cache:
-            for c, a, kw in self.func.depend:
+            for c, a, kw in getattr(self.func, 'depend', []):
                 self.depend_on_related(*a, **kw)
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
-- 
2.43.0


From 3f3668649b8566b5129299b3346a4e9e9e94f254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:14 +0000
Subject: [PATCH 09/34] fix: do not share cached values between rows without a
 cache key

Rows whose key is still 0 all used the same cache entry and showed each
other's values.
---
 denorm/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index 0e404ab..49427e4 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -299,6 +299,10 @@ class CacheWrapper(object):
         self.field = field
 
     def __set__(self, obj, value):
+        if not value:
+            # this row never got a key, so there is nothing to store the value under
+            obj.__dict__[self.field.name] = self.field.func(obj)
+            return
         key = 'CachedField_%s' % value
         cached = self.field.cache.get(key)
         if not cached:
-- 
2.43.0


From 5961ccf07ddd4259b7716c8bfa5707b01d9d1055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:14 +0000
Subject: [PATCH 10/34] fix: do not cache values computed while saving

An instance may be saved while holding outdated related objects. Its value was
stored under the new key and served to everybody until the next change.
---
 denorm/fields.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index 49427e4..01bfacc 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -324,6 +324,13 @@ class CachedField(CacheKeyField):
         super(CachedField, self).contribute_to_class(cls, name, *args, **kwargs)
         setattr(cls, self.name, CacheWrapper(self))
 
+    def pre_save(self, model_instance, add):
+        value = self.denorm.func(model_instance)
+        # The instance may hold outdated related objects, so its value must not
+        # get into the cache.
+        model_instance.__dict__[self.name] = self.func(model_instance)
+        return value
+
 
 def cached(cache, *args, **kwargs):
     def deco(func):
-- 
2.43.0


From 5f7dde2a422834a2d366b3def24310b71cc19cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:24:14 +0000
Subject: [PATCH 11/34] fix: never write outdated counts and sums

Saving a row read the current aggregate and wrote it back, which lost changes
committed in between. It also raised IndexError for new rows with a preset
primary key.
---
 denorm/fields.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 01bfacc..5906240 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -165,17 +165,20 @@ class AggregateField(models.PositiveIntegerField):
         """
         if add:
             # if this is a new instance there can't be any related objects yet
-            value = 0
-        else:
-            # if we're updating, get the most recent value from the DB
-            value = self.denorm.model.objects.filter(
-                pk=model_instance.pk,
-            ).values_list(
-                self.attname, flat=True,
-            )[0]
-
-        setattr(model_instance, self.attname, value)
-        return value
+            setattr(model_instance, self.attname, 0)
+            return 0
+
+        # if we're updating, get the most recent value from the DB. There is none
+        # if this is a new instance with a preset primary key.
+        for value in self.denorm.model._base_manager.filter(
+            pk=model_instance.pk,
+        ).values_list(
+            self.attname, flat=True,
+        ):
+            setattr(model_instance, self.attname, value)
+
+        # leave the column alone, a trigger may change it any time
+        return models.F(self.attname)
 
     def deconstruct(self):
         name, path, args, kwargs = super(AggregateField, self).deconstruct()
-- 
2.43.0


From 9403cc055d8162b378bcc891668a57d7a637d9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:06 +0000
Subject: [PATCH 12/34] fix: combine skip lists with the model's list of always
 skipped columns

A skip list given to a field or dependency replaced denorm_always_skip instead
of adding to it. Generic relations ignored both.
---
 denorm/db/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 9d1c7e4..9ca045c 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -81,6 +81,8 @@ class Trigger(object):
         else:
             self.connection = connection
 
+        skip = tuple(skip or ())
+
         try:
             from django.contrib.contenttypes.fields import GenericRelation
         except ImportError:
@@ -94,13 +96,14 @@ class Trigger(object):
         elif isinstance(subject, GenericRelation):
             self.model = None
             self.db_table = remote_field_model(subject)._meta.db_table
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v]
+            skip += tuple(getattr(remote_field_model(subject), 'denorm_always_skip', ()))
+            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v and k.attname not in skip]
             self.content_type_field = subject.content_type_field_name + '_id'
 
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
             self.db_table = self.model._meta.db_table
-            skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
+            skip += tuple(getattr(self.model, 'denorm_always_skip', ()))
             self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
 
         elif hasattr(subject, "_meta"):
@@ -108,7 +111,7 @@ class Trigger(object):
             self.db_table = self.model._meta.db_table
             # FIXME: need to check get_parent_list and add triggers to those
             # The below will only check the fields on *this* model, not parents
-            skip = skip or () + getattr(self.model, 'denorm_always_skip', ())
+            skip += tuple(getattr(self.model, 'denorm_always_skip', ()))
             self.fields = []
             try:
                 from django.db.models.fields.related import ForeignObjectRel
-- 
2.43.0


From 36ee8b1b6e00a68f374e1cbe8815e98d745a7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:07 +0000
Subject: [PATCH 13/34] fix: keep triggers with different skip lists apart

Triggers on the same table were merged whatever columns they look at, so the
skip list of one dependency also applied to all others.
---
 denorm/db/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 9ca045c..e5b898d 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -72,6 +72,7 @@ class Trigger(object):
         self.event = event
         self.content_type = content_type
         self.content_type_field = None
+        self.number = ''
         self.actions = []
         self.append(actions)
         self.using = using
@@ -139,7 +140,7 @@ class Trigger(object):
             "denorm",
             self.time,
             "row",
-            self.event,
+            "%s%s" % (self.event, self.number),
             "on",
             self.db_table
         ])
@@ -166,6 +167,14 @@ class TriggerSet(object):
 
         for trigger in triggers:
             name = trigger.name()
+            if trigger.event == "update":
+                # Different skip lists mean different columns to look at, which
+                # needs separate triggers.
+                number = 1
+                while name in self.triggers and self.triggers[name].fields != trigger.fields:
+                    number += 1
+                    trigger.number = number
+                    name = trigger.name()
             if name in self.triggers:
                 self.triggers[name].append(trigger.actions)
             else:
-- 
2.43.0


From 9d41d35c4fee8e482c92c48d9355aad96828a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:07 +0000
Subject: [PATCH 14/34] fix: respect the content type of generic relations in
 trigger actions

Moving a row between objects of different models also marked an object of the
new model with the old primary key. On MySQL every change did.
---
 denorm/db/base.py                |  4 +++-
 denorm/db/mysql/triggers.py      |  4 ++--
 denorm/db/postgresql/triggers.py |  2 ++
 denorm/db/sqlite3/triggers.py    |  3 +++
 denorm/dependencies.py           | 41 ++++++++++++++++++++++++--------
 5 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index e5b898d..d88ff0e 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -26,10 +26,12 @@ class TriggerAction(object):
 
 
 class TriggerActionInsert(TriggerAction):
-    def __init__(self, model, columns, values):
+    def __init__(self, model, columns, values, where=None):
         self.model = model
         self.columns = columns
         self.values = values
+        # only insert if this condition holds, not available for nested selects
+        self.where = where
 
     def sql(self):
         raise NotImplementedError
diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 7da30e8..aa00b7b 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -27,6 +27,8 @@ class TriggerActionInsert(base.TriggerActionInsert):
             sql, nested_params = self.values.sql()
             values = "(" + sql + ")"
             params.extend(nested_params)
+        elif self.where:
+            values = "SELECT " + ", ".join(self.values) + " FROM DUAL WHERE " + self.where
         else:
             values = "VALUES (" + ", ".join(self.values) + ")"
 
@@ -71,8 +73,6 @@ class Trigger(base.Trigger):
                     action_list.extend(sql.split('\n'))
                     params.extend(action_params)
 
-        # FIXME: actions should depend on content_type and content_type_field, if applicable
-        # now we flag too many things dirty, e.g. a change for ('forum', 1) also flags ('post', 1)
         table = self.db_table
         time = self.time.upper()
         event = self.event.upper()
diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 8c9206b..d23caa4 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -27,6 +27,8 @@ class TriggerActionInsert(base.TriggerActionInsert):
             sql, nested_params = self.values.sql()
             values = "(" + sql + ")"
             params.extend(nested_params)
+        elif self.where:
+            values = "SELECT " + ", ".join(self.values) + " WHERE " + self.where
         else:
             values = "VALUES (" + ", ".join(self.values) + ")"
 
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 576e110..cc482f4 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -29,6 +29,9 @@ class TriggerActionInsert(base.TriggerActionInsert):
         if isinstance(self.values, TriggerNestedSelect):
             sql, params = self.values.sql()
             values = "" + sql + ""
+        elif self.where:
+            values = "SELECT " + ", ".join(self.values) + " WHERE " + self.where
+            params = []
         else:
             values = "VALUES(" + ", ".join(self.values) + ")"
             params = []
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 7f4802e..50fad7e 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -91,6 +91,14 @@ class DependOnRelated(DenormDependency):
         # Now the candidates list contains exactly one item, thats our winner.
         self.type, self.field = candidates[0]
 
+    def content_type_condition(self, row, content_type, using):
+        """
+        Returns SQL that tells if ``row`` (NEW or OLD) of a generic relation belongs
+        to ``content_type``.
+        """
+        column = self.field.content_type_field_name + '_id'
+        return "%s.%s = %s" % (row, self.get_quote_name(using)(column), content_type)
+
 
 class CacheKeyDependOnRelated(DependOnRelated):
 
@@ -180,6 +188,18 @@ class CacheKeyDependOnRelated(DependOnRelated):
                     column_name = self.field.remote_field.model._meta.pk.column
                     reverse_column_name = self.field.object_id_field_name
 
+            where_new = "%s = NEW.%s" % (
+                qn(self.this_model._meta.pk.get_attname_column()[1]),
+                qn(column_name),
+            )
+            where_old = "%s = OLD.%s" % (
+                qn(self.this_model._meta.pk.get_attname_column()[1]),
+                qn(column_name),
+            )
+            if not isinstance(self.field, models.ManyToManyField):
+                where_new += " AND " + self.content_type_condition("NEW", content_type, using)
+                where_old += " AND " + self.content_type_condition("OLD", content_type, using)
+
             # The first part of a M2M dependency is exactly like a backward
             # ForeignKey dependency. ``this_model`` is backward FK related
             # to the intermediate table.
@@ -187,19 +207,13 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 model=self.this_model,
                 columns=(self.fieldname,),
                 values=(triggers.RandomBigInt(),),
-                where="%s = NEW.%s" % (
-                    qn(self.this_model._meta.pk.get_attname_column()[1]),
-                    qn(column_name),
-                ),
+                where=where_new,
             )
             action_m2m_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
                 columns=(self.fieldname,),
                 values=(triggers.RandomBigInt(),),
-                where="%s = OLD.%s" % (
-                    qn(self.this_model._meta.pk.get_attname_column()[1]),
-                    qn(column_name),
-                ),
+                where=where_old,
             )
 
             trigger_list = [
@@ -360,6 +374,11 @@ class CallbackDependOnRelated(DependOnRelated):
                     column_name = qn(remote_field_model(self.field)._meta.pk.column)
                     reverse_column_name = self.field.object_id_field_name
 
+            where_new = where_old = None
+            if not isinstance(self.field, models.ManyToManyField):
+                where_new = self.content_type_condition("NEW", content_type, using)
+                where_old = self.content_type_condition("OLD", content_type, using)
+
             # The first part of a M2M dependency is exactly like a backward
             # ForeignKey dependency. ``this_model`` is backward FK related
             # to the intermediate table.
@@ -369,7 +388,8 @@ class CallbackDependOnRelated(DependOnRelated):
                 values=(
                     content_type,
                     "NEW.%s" % column_name,
-                )
+                ),
+                where=where_new,
             )
             action_m2m_old = triggers.TriggerActionInsert(
                 model=denorm.models.DirtyInstance,
@@ -377,7 +397,8 @@ class CallbackDependOnRelated(DependOnRelated):
                 values=(
                     content_type,
                     "OLD.%s" % column_name,
-                )
+                ),
+                where=where_old,
             )
 
             trigger_list = [
-- 
2.43.0


From c4a86f9da0dc86c2019e144c4f3b0ec01100b9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:13 +0000
Subject: [PATCH 15/34] fix: rebuild counts and sums, and rows hidden by the
 default manager

denorm_rebuild only marked rows as dirty, but flushing never writes count and
sum fields, so wrong values stayed. Recompute them while marking the rows.
Rows that the default manager does not return were skipped.
---
 denorm/denorms.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index f96652a..177e48c 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -470,7 +470,7 @@ class SumDenorm(AggregateDenorm):
         # correctness of the incremental updates we create a function that
         # calculates it from scratch.
         self.sum_field = field
-        self.func = lambda obj: (getattr(obj, self.manager_name).filter(**self.filter).exclude(**self.exclude).aggregate(Sum(self.sum_field)).values()[0] or 0)
+        self.func = lambda obj: (getattr(obj, self.manager_name).filter(**self.filter).exclude(**self.exclude).aggregate(value=Sum(self.sum_field))['value'] or 0)
 
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
@@ -564,7 +564,13 @@ def rebuildall(verbose=False, model_name=None, field_name=None):
                 i += 1
         # create DirtyInstance for all objects, so the rebuild is done during flush
         content_type = contenttypes.models.ContentType.objects.get_for_model(model)
-        for instance in model.objects.all():
+        # flush won't touch counts and sums, those are kept up to date by triggers
+        aggregates = [denorm for denorm in denorms if isinstance(denorm, AggregateDenorm)]
+        for instance in model._base_manager.all():
+                if aggregates:
+                    model._base_manager.filter(pk=instance.pk).update(
+                        **dict((denorm.fieldname, denorm.func(instance)) for denorm in aggregates)
+                    )
                 DirtyInstance.objects.create(
                     content_type=content_type,
                     object_id=instance.pk,
-- 
2.43.0


From 0ed767405288288724f17b2407746ff92362214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:46 +0000
Subject: [PATCH 16/34] fix: install and drop triggers in a transaction of the
 chosen database

---
 denorm/db/postgresql/triggers.py | 4 ++--
 denorm/db/sqlite3/triggers.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index d23caa4..d8ed5c4 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -144,7 +144,7 @@ class TriggerSet(base.TriggerSet):
 
     def drop(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.drop_atomic()
         except AttributeError:
             self.drop_atomic()
@@ -161,7 +161,7 @@ class TriggerSet(base.TriggerSet):
 
     def install(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.install_atomic()
         except AttributeError:
             self.install_atomic()
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index cc482f4..27660e3 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -120,7 +120,7 @@ class TriggerSet(base.TriggerSet):
 
     def drop(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.drop_atomic()
         except AttributeError:
             self.drop_atomic()
@@ -135,7 +135,7 @@ class TriggerSet(base.TriggerSet):
 
     def install(self):
         try:
-            with transaction.atomic():
+            with transaction.atomic(using=self.using):
                 self.install_atomic()
         except AttributeError:
             self.install_atomic()
-- 
2.43.0


From 26b71b225f312def477c9a919619080eb2d10dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:46 +0000
Subject: [PATCH 17/34] fix: only drop triggers whose name starts with denorm_

---
 denorm/db/postgresql/triggers.py | 4 +++-
 denorm/db/sqlite3/triggers.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index d8ed5c4..8bdee48 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -140,7 +140,9 @@ class TriggerSet(base.TriggerSet):
         cursor = self.cursor()
         cursor.execute("SELECT pg_class.relname, pg_trigger.tgname FROM pg_trigger LEFT JOIN pg_class ON (pg_trigger.tgrelid = pg_class.oid) WHERE pg_trigger.tgname LIKE 'denorm_%%';")
         for table_name, trigger_name in cursor.fetchall():
-            cursor.execute('DROP TRIGGER %s ON %s;' % (qn(trigger_name), qn(table_name)))
+            # LIKE takes the underscore for a wildcard
+            if trigger_name.startswith('denorm_'):
+                cursor.execute('DROP TRIGGER %s ON %s;' % (qn(trigger_name), qn(table_name)))
 
     def drop(self):
         try:
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 27660e3..9c0ee5e 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -116,7 +116,9 @@ class TriggerSet(base.TriggerSet):
 
         cursor.execute("SELECT name, tbl_name FROM sqlite_master WHERE type = 'trigger' AND name LIKE 'denorm_%%';")
         for trigger_name, table_name in cursor.fetchall():
-            cursor.execute("DROP TRIGGER %s;" % (qn(trigger_name),))
+            # LIKE ignores case and takes the underscore for a wildcard
+            if trigger_name.startswith('denorm_'):
+                cursor.execute("DROP TRIGGER %s;" % (qn(trigger_name),))
 
     def drop(self):
         try:
-- 
2.43.0


From a1ffa9180d73897213054f70bebdf3b7ad6483a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:46 +0000
Subject: [PATCH 18/34] fix: replace existing triggers when installing again

---
 denorm/db/mysql/triggers.py      | 2 ++
 denorm/db/postgresql/triggers.py | 2 ++
 denorm/db/sqlite3/triggers.py    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index aa00b7b..81d8f92 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -122,6 +122,8 @@ class TriggerSet(base.TriggerSet):
                 cursor.execute('DROP TRIGGER %s;' % qn(result[0]))
 
     def install(self):
+        # there may be triggers from an earlier installation
+        self.drop()
         cursor = self.cursor()
         for name, trigger in self.triggers.items():
             sql, args = trigger.sql()
diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 8bdee48..8c48840 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -153,6 +153,8 @@ class TriggerSet(base.TriggerSet):
             transaction.commit_unless_managed(using=self.using)
 
     def install_atomic(self):
+        # there may be triggers from an earlier installation
+        self.drop_atomic()
         cursor = self.cursor()
         cursor.execute("SELECT lanname FROM pg_catalog.pg_language WHERE lanname ='plpgsql'")
         if not cursor.fetchall():
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 9c0ee5e..6701884 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -129,6 +129,8 @@ class TriggerSet(base.TriggerSet):
             transaction.commit_unless_managed(using=self.using)
 
     def install_atomic(self):
+        # there may be triggers from an earlier installation
+        self.drop_atomic()
         cursor = self.cursor()
 
         for name, trigger in self.triggers.items():
-- 
2.43.0


From 84017af8800a4e1284c4303a907f971b3ca4b469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:02 +0000
Subject: [PATCH 19/34] fix: quote values in the SQL printed by denorm_sql

---
 denorm/db/base.py                        | 6 ++++++
 denorm/db/mysql/triggers.py              | 5 +++++
 denorm/db/postgresql/triggers.py         | 3 +++
 denorm/db/sqlite3/triggers.py            | 3 +++
 denorm/management/commands/denorm_sql.py | 2 +-
 5 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index d88ff0e..d2d70b3 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -182,6 +182,12 @@ class TriggerSet(object):
             else:
                 self.triggers[name] = trigger
 
+    def quote_value(self, value):
+        """
+        Returns ``value`` as a SQL literal.
+        """
+        raise NotImplementedError
+
     def install(self):
         raise NotImplementedError
 
diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 81d8f92..6c9cc4a 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -109,6 +109,11 @@ CREATE TRIGGER %(name)s
 
 
 class TriggerSet(base.TriggerSet):
+    def quote_value(self, value):
+        self.connection.ensure_connection()
+        value = self.connection.connection.literal(value)
+        return value.decode('utf-8') if isinstance(value, bytes) else value
+
     def drop(self):
         qn = self.connection.ops.quote_name
         cursor = self.cursor()
diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 8c48840..d164695 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -135,6 +135,9 @@ CREATE TRIGGER %(name)s
 
 
 class TriggerSet(base.TriggerSet):
+    def quote_value(self, value):
+        return self.cursor().mogrify('%s', [value]).decode('utf-8')
+
     def drop_atomic(self):
         qn = self.connection.ops.quote_name
         cursor = self.cursor()
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 6701884..02eaff6 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -110,6 +110,9 @@ CREATE TRIGGER %(name)s
 
 
 class TriggerSet(base.TriggerSet):
+    def quote_value(self, value):
+        return self.connection.schema_editor().quote_value(value)
+
     def drop_atomic(self):
         qn = self.connection.ops.quote_name
         cursor = self.cursor()
diff --git a/denorm/management/commands/denorm_sql.py b/denorm/management/commands/denorm_sql.py
index 48216e5..ec370a6 100644
--- a/denorm/management/commands/denorm_sql.py
+++ b/denorm/management/commands/denorm_sql.py
@@ -10,5 +10,5 @@ class Command(BaseCommand):
         sql_list = []
         for name, trigger in triggerset.triggers.items():
             sql, params = trigger.sql()
-            sql_list.append(sql % tuple(params))
+            sql_list.append(sql % tuple(triggerset.quote_value(param) for param in params))
         print('\n'.join(sql_list))
-- 
2.43.0


From e5f21535c1f6cd32fdb71501f931de0eb97cdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:37 +0000
Subject: [PATCH 20/34] fix: report unknown models also for dependencies with a
 type

---
 denorm/dependencies.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 50fad7e..af09d60 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -39,6 +39,7 @@ class DependOnRelated(DenormDependency):
         self.other_model = othermodel
         self.fk_name = foreign_key
         self.type = type
+        self.field = None
         self.skip = skip or ()
 
     def setup(self, this_model):
@@ -106,7 +107,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
         from denorm.db import triggers
         qn = self.get_quote_name(using)
 
-        if not self.type:
+        if self.field is None:
             # 'resolved_model' model never got called...
             raise ValueError("The model '%s' could not be resolved, it probably does not exist" % self.other_model)
 
@@ -289,7 +290,7 @@ class CallbackDependOnRelated(DependOnRelated):
         from denorm.db import triggers
         qn = self.get_quote_name(using)
 
-        if not self.type:
+        if self.field is None:
             # 'resolved_model' model never got called...
             raise ValueError("The model '%s' could not be resolved, it probably does not exist" % self.other_model)
 
-- 
2.43.0


From 64d30c784998307b584f3e2b746ca2e7aff23691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:47 +0000
Subject: [PATCH 21/34] fix: ignore reverse one-to-one relations of generically
 related models

---
 denorm/db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index d2d70b3..671fc3a 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -59,9 +59,11 @@ def get_fields_with_model(model, meta):
         return [
             (f, f.model if f.model != model else None)
             for f in meta.get_fields()
-            if not f.is_relation
+            if f.concrete and (
+                not f.is_relation
                 or f.one_to_one
                 or (f.many_to_one and f.related_model)
+            )
         ]
     except AttributeError:
         return meta.get_fields_with_model()
-- 
2.43.0


From 339cb679d5d88055c49db63d8224105c317c1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:32 +0000
Subject: [PATCH 22/34] fix: use column names instead of field names in trigger
 SQL

---
 denorm/db/base.py      |  8 ++++----
 denorm/denorms.py      | 33 +++++++++++++++++++++------------
 denorm/dependencies.py | 33 +++++++++++++++++++++------------
 3 files changed, 46 insertions(+), 28 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 671fc3a..96d74d2 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -102,14 +102,14 @@ class Trigger(object):
             self.model = None
             self.db_table = remote_field_model(subject)._meta.db_table
             skip += tuple(getattr(remote_field_model(subject), 'denorm_always_skip', ()))
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v and k.attname not in skip]
-            self.content_type_field = subject.content_type_field_name + '_id'
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(remote_field_model(subject), remote_field_model(subject)._meta) if not v and k.attname not in skip]
+            self.content_type_field = remote_field_model(subject)._meta.get_field(subject.content_type_field_name).column
 
         elif isinstance(subject, models.ForeignKey):
             self.model = subject.model
             self.db_table = self.model._meta.db_table
             skip += tuple(getattr(self.model, 'denorm_always_skip', ()))
-            self.fields = [(k.attname, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
+            self.fields = [(k.column, k.db_type(connection=self.connection)) for k, v in get_fields_with_model(subject.model, self.model._meta) if not v and k.attname not in skip]
 
         elif hasattr(subject, "_meta"):
             self.model = subject
@@ -127,7 +127,7 @@ class Trigger(object):
                     pass
                 else:
                     if not v and k.attname not in skip:
-                        self.fields.append((k.attname, k.db_type(connection=self.connection)))
+                        self.fields.append((k.column, k.db_type(connection=self.connection)))
 
         else:
             raise NotImplementedError
diff --git a/denorm/denorms.py b/denorm/denorms.py
index 177e48c..60b97af 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -91,6 +91,12 @@ class Denorm(object):
             cconnection = connection
         return cconnection.ops.quote_name
 
+    def column(self):
+        """
+        Returns the name of the column the denormalized value is stored in.
+        """
+        return self.model._meta.get_field(self.fieldname).column
+
     def setup(self, **kwargs):
         """
         Adds 'self' to the global denorm list
@@ -253,7 +259,7 @@ class CacheKeyDenorm(BaseCacheKeyDenorm):
         from .db import triggers
         action = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.column(),),
             values=(triggers.RandomBigInt(),),
             where="%s = NEW.%s" % ((qn(self.model._meta.pk.get_attname_column()[1]),) * 2),
         )
@@ -351,13 +357,13 @@ class AggregateDenorm(Denorm):
         related_dec_where, related_where_params = self.get_related_where(fk_name, using, 'OLD')
         related_increment = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.column(),),
             values=(self.get_related_increment_value(using),),
             where=(' AND '.join(related_inc_where), related_where_params),
         )
         related_decrement = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.column(),),
             values=(self.get_related_decrement_value(using),),
             where=(' AND '.join(related_dec_where), related_where_params),
         )
@@ -398,7 +404,7 @@ class AggregateDenorm(Denorm):
             dec_where = [action.replace('NEW.', 'OLD.') for action in inc_where]
         else:
             pk_name = qn(self.model._meta.pk.get_attname_column()[1])
-            fk_name = qn(related_field.attname)
+            fk_name = qn(related_field.column)
             inc_where = ["%s = NEW.%s" % (pk_name, fk_name)]
             dec_where = ["%s = OLD.%s" % (pk_name, fk_name)]
 
@@ -427,13 +433,13 @@ class AggregateDenorm(Denorm):
             # create the triggers for the incremental updates
         increment = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.column(),),
             values=(self.get_increment_value(using),),
             where=(' AND '.join(inc_where), where_params),
         )
         decrement = triggers.TriggerActionUpdate(
             model=self.model,
-            columns=(self.fieldname,),
+            columns=(self.column(),),
             values=(self.get_decrement_value(using),),
             where=(' AND '.join(dec_where), where_params),
         )
@@ -472,15 +478,18 @@ class SumDenorm(AggregateDenorm):
         self.sum_field = field
         self.func = lambda obj: (getattr(obj, self.manager_name).filter(**self.filter).exclude(**self.exclude).aggregate(value=Sum(self.sum_field))['value'] or 0)
 
+    def sum_column(self):
+        return self.manager.field.model._meta.get_field(self.sum_field).column
+
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s + COALESCE(NEW.%s, 0)" % (qn(self.column()), qn(self.sum_column()))
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.fieldname), qn(self.sum_field))
+        return "%s - COALESCE(OLD.%s, 0)" % (qn(self.column()), qn(self.sum_column()))
 
     def get_related_increment_value(self, using):
         qn = self.get_quote_name(using)
@@ -493,7 +502,7 @@ class SumDenorm(AggregateDenorm):
         related_query.clear_ordering(force_empty=True)
         related_query.default_cols = False
         related_filter_where, related_where_params = related_query.get_compiler(using=using).as_sql()
-        return "%s + (%s)" % (qn(self.fieldname), related_filter_where)
+        return "%s + (%s)" % (qn(self.column()), related_filter_where)
 
     def get_related_decrement_value(self, using):
         qn = self.get_quote_name(using)
@@ -506,7 +515,7 @@ class SumDenorm(AggregateDenorm):
         related_query.clear_ordering(force_empty=True)
         related_query.default_cols = False
         related_filter_where, related_where_params = related_query.get_compiler(using=using).as_sql()
-        return "%s - (%s)" % (qn(self.fieldname), related_filter_where)
+        return "%s - (%s)" % (qn(self.column()), related_filter_where)
 
 
 class CountDenorm(AggregateDenorm):
@@ -525,12 +534,12 @@ class CountDenorm(AggregateDenorm):
     def get_increment_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s + 1" % qn(self.fieldname)
+        return "%s + 1" % qn(self.column())
 
     def get_decrement_value(self, using):
         qn = self.get_quote_name(using)
 
-        return "%s - 1" % qn(self.fieldname)
+        return "%s - 1" % qn(self.column())
 
     def get_related_increment_value(self, using):
         return self.get_increment_value(using)
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index af09d60..08d0547 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -92,17 +92,26 @@ class DependOnRelated(DenormDependency):
         # Now the candidates list contains exactly one item, thats our winner.
         self.type, self.field = candidates[0]
 
+    def object_id_column(self):
+        """
+        Returns the column that holds the primary keys a generic relation points to.
+        """
+        return remote_field_model(self.field)._meta.get_field(self.field.object_id_field_name).column
+
     def content_type_condition(self, row, content_type, using):
         """
         Returns SQL that tells if ``row`` (NEW or OLD) of a generic relation belongs
         to ``content_type``.
         """
-        column = self.field.content_type_field_name + '_id'
+        column = remote_field_model(self.field)._meta.get_field(self.field.content_type_field_name).column
         return "%s.%s = %s" % (row, self.get_quote_name(using)(column), content_type)
 
 
 class CacheKeyDependOnRelated(DependOnRelated):
 
+    def column(self):
+        return self.this_model._meta.get_field(self.fieldname).column
+
     def get_triggers(self, using):
         from denorm.db import triggers
         qn = self.get_quote_name(using)
@@ -119,7 +128,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # may be related to one instance of ``other_model``
             action_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.field.get_attname_column()[1]),
@@ -128,7 +137,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.field.get_attname_column()[1]),
@@ -149,7 +158,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # are affected, otherwise only the one it is pointing to is affected.
             action_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -158,7 +167,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
             )
             action_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -183,11 +192,11 @@ class CacheKeyDependOnRelated(DependOnRelated):
                     reverse_column_name = self.field.m2m_column_name()
             else:
                 if "forward" in self.type:
-                    column_name = self.field.object_id_field_name
+                    column_name = self.object_id_column()
                     reverse_column_name = self.field.remote_field.model._meta.pk.column
                 if "backward" in self.type:
                     column_name = self.field.remote_field.model._meta.pk.column
-                    reverse_column_name = self.field.object_id_field_name
+                    reverse_column_name = self.object_id_column()
 
             where_new = "%s = NEW.%s" % (
                 qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -206,13 +215,13 @@ class CacheKeyDependOnRelated(DependOnRelated):
             # to the intermediate table.
             action_m2m_new = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.column(),),
                 values=(triggers.RandomBigInt(),),
                 where=where_new,
             )
             action_m2m_old = triggers.TriggerActionUpdate(
                 model=self.this_model,
-                columns=(self.fieldname,),
+                columns=(self.column(),),
                 values=(triggers.RandomBigInt(),),
                 where=where_old,
             )
@@ -239,7 +248,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 ).sql()
                 action_new = triggers.TriggerActionUpdate(
                     model=self.this_model,
-                    columns=(self.fieldname,),
+                    columns=(self.column(),),
                     values=(triggers.RandomBigInt(),),
                     where=(self.this_model._meta.pk.get_attname_column()[1] + ' IN (' + sql + ')', params),
                 )
@@ -369,11 +378,11 @@ class CallbackDependOnRelated(DependOnRelated):
                     reverse_column_name = self.field.m2m_column_name()
             else:
                 if "forward" in self.type:
-                    column_name = qn(self.field.object_id_field_name)
+                    column_name = qn(self.object_id_column())
                     reverse_column_name = remote_field_model(self.field)._meta.pk.column
                 if "backward" in self.type:
                     column_name = qn(remote_field_model(self.field)._meta.pk.column)
-                    reverse_column_name = self.field.object_id_field_name
+                    reverse_column_name = self.object_id_column()
 
             where_new = where_old = None
             if not isinstance(self.field, models.ManyToManyField):
-- 
2.43.0


From 6ce178b53ef0e8a89b210ef724345b496ba1ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:22 +0000
Subject: [PATCH 23/34] fix: quote table, column and trigger names in trigger
 SQL

---
 denorm/db/base.py                |  4 ++++
 denorm/db/mysql/triggers.py      | 15 ++++++++-------
 denorm/db/postgresql/triggers.py | 20 +++++++++++---------
 denorm/db/sqlite3/triggers.py    | 16 ++++++++--------
 denorm/dependencies.py           | 12 ++++++------
 5 files changed, 37 insertions(+), 30 deletions(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index 96d74d2..e8b79db 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -2,6 +2,10 @@ from django.db import models, connections, connection
 from ..helpers import remote_field_model
 
 
+def quote_name(name):
+    return connection.ops.quote_name(name)
+
+
 class RandomBigInt(object):
     def sql(self):
         raise NotImplementedError
diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 6c9cc4a..1a95d90 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -12,16 +12,16 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
 
     def sql(self):
         columns = self.columns
-        table = self.table
-        where = ", ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
+        table = base.quote_name(self.table)
+        where = ", ".join(["%s = %s" % (base.quote_name(k), v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
 class TriggerActionInsert(base.TriggerActionInsert):
 
     def sql(self):
-        table = self.model._meta.db_table
-        columns = "(" + ", ".join(self.columns) + ")"
+        table = base.quote_name(self.model._meta.db_table)
+        columns = "(" + ", ".join(base.quote_name(c) for c in self.columns) + ")"
         params = []
         if isinstance(self.values, TriggerNestedSelect):
             sql, nested_params = self.values.sql()
@@ -38,8 +38,8 @@ class TriggerActionInsert(base.TriggerActionInsert):
 class TriggerActionUpdate(base.TriggerActionUpdate):
 
     def sql(self):
-        table = self.model._meta.db_table
-        updates = ", ".join(["%s = %s" % (k, v) for k, v in zip(self.columns, self.values)])
+        table = base.quote_name(self.model._meta.db_table)
+        updates = ", ".join(["%s = %s" % (base.quote_name(k), v) for k, v in zip(self.columns, self.values)])
         if isinstance(self.where, tuple):
             where, where_params = self.where
         else:
@@ -59,6 +59,7 @@ class Trigger(base.Trigger):
                 random.choice(string.ascii_uppercase + string.digits)
                 for x in range(5)
             )
+        name = qn(name)
         params = []
         action_list = []
         actions_added = set()
@@ -73,7 +74,7 @@ class Trigger(base.Trigger):
                     action_list.extend(sql.split('\n'))
                     params.extend(action_params)
 
-        table = self.db_table
+        table = qn(self.db_table)
         time = self.time.upper()
         event = self.event.upper()
 
diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index d164695..12822a3 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -12,16 +12,16 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
 
     def sql(self):
         columns = self.columns
-        table = self.table
-        where = ", ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
+        table = base.quote_name(self.table)
+        where = ", ".join(["%s = %s" % (base.quote_name(k), v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
 class TriggerActionInsert(base.TriggerActionInsert):
 
     def sql(self):
-        table = self.model._meta.db_table
-        columns = "(" + ", ".join(self.columns) + ")"
+        table = base.quote_name(self.model._meta.db_table)
+        columns = "(" + ", ".join(base.quote_name(c) for c in self.columns) + ")"
         params = []
         if isinstance(self.values, TriggerNestedSelect):
             sql, nested_params = self.values.sql()
@@ -45,9 +45,9 @@ class TriggerActionInsert(base.TriggerActionInsert):
 class TriggerActionUpdate(base.TriggerActionUpdate):
 
     def sql(self):
-        table = self.model._meta.db_table
+        table = base.quote_name(self.model._meta.db_table)
         params = []
-        updates = ", ".join(["%s = %s" % (k, v) for k, v in zip(self.columns, self.values)])
+        updates = ", ".join(["%s = %s" % (base.quote_name(k), v) for k, v in zip(self.columns, self.values)])
         if isinstance(self.where, tuple):
             where, where_params = self.where
         else:
@@ -67,6 +67,8 @@ class Trigger(base.Trigger):
         qn = self.connection.ops.quote_name
 
         name = truncate_name(self.name(), self.connection.ops.max_name_length() - 5)
+        func_name = qn('func_' + name)
+        name = qn(name)
         params = []
         action_list = []
         actions_added = set()
@@ -80,7 +82,7 @@ class Trigger(base.Trigger):
                     actions_added.add((sql, action_params))
                     action_list.extend(sql.split('\n'))
                     params.extend(action_params)
-        table = self.db_table
+        table = qn(self.db_table)
         time = self.time.upper()
         event = self.event.upper()
         content_type = self.content_type
@@ -120,7 +122,7 @@ class Trigger(base.Trigger):
             actions = "\n        ".join(action_list)
 
         sql = """
-CREATE OR REPLACE FUNCTION func_%(name)s()
+CREATE OR REPLACE FUNCTION %(func_name)s()
     RETURNS TRIGGER AS $$
     BEGIN
         %(actions)s
@@ -129,7 +131,7 @@ CREATE OR REPLACE FUNCTION func_%(name)s()
 $$ LANGUAGE plpgsql;
 CREATE TRIGGER %(name)s
     %(time)s %(event)s ON %(table)s
-    FOR EACH ROW EXECUTE PROCEDURE func_%(name)s();
+    FOR EACH ROW EXECUTE PROCEDURE %(func_name)s();
 """ % locals()
         return sql, params
 
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 02eaff6..9b68c4a 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -16,16 +16,16 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
 
     def sql(self):
         columns = self.columns
-        table = self.table
-        where = ", ".join(["%s = %s" % (k, v) for k, v in self.kwargs.items()])
+        table = base.quote_name(self.table)
+        where = ", ".join(["%s = %s" % (base.quote_name(k), v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
 class TriggerActionInsert(base.TriggerActionInsert):
 
     def sql(self):
-        table = self.model._meta.db_table
-        columns = "(" + ", ".join(self.columns) + ")"
+        table = base.quote_name(self.model._meta.db_table)
+        columns = "(" + ", ".join(base.quote_name(c) for c in self.columns) + ")"
         if isinstance(self.values, TriggerNestedSelect):
             sql, params = self.values.sql()
             values = "" + sql + ""
@@ -42,8 +42,8 @@ class TriggerActionInsert(base.TriggerActionInsert):
 class TriggerActionUpdate(base.TriggerActionUpdate):
 
     def sql(self):
-        table = self.model._meta.db_table
-        updates = ", ".join(["%s = %s" % (k, v) for k, v in zip(self.columns, self.values)])
+        table = base.quote_name(self.model._meta.db_table)
+        updates = ", ".join(["%s = %s" % (base.quote_name(k), v) for k, v in zip(self.columns, self.values)])
         if isinstance(self.where, tuple):
             where, where_params = self.where
         else:
@@ -63,7 +63,7 @@ class Trigger(base.Trigger):
     def sql(self):
         qn = self.connection.ops.quote_name
 
-        name = self.name()
+        name = qn(self.name())
         params = []
         action_list = []
         actions_added = set()
@@ -78,7 +78,7 @@ class Trigger(base.Trigger):
                     action_list.extend(sql.split('\n'))
                     params.extend(action_params)
         actions = "\n        ".join(action_list)
-        table = self.db_table
+        table = qn(self.db_table)
         time = self.time.upper()
         event = self.event.upper()
         content_type = self.content_type
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index 08d0547..dfbc4cd 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -243,14 +243,14 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 # same m2m_table and model table.
                 sql, params = triggers.TriggerNestedSelect(
                     self.field.m2m_db_table(),
-                    (column_name,),
+                    (qn(column_name),),
                     **{reverse_column_name: 'NEW.%s' % qn(self.other_model._meta.pk.get_attname_column()[1])}
                 ).sql()
                 action_new = triggers.TriggerActionUpdate(
                     model=self.this_model,
                     columns=(self.column(),),
                     values=(triggers.RandomBigInt(),),
-                    where=(self.this_model._meta.pk.get_attname_column()[1] + ' IN (' + sql + ')', params),
+                    where=(qn(self.this_model._meta.pk.get_attname_column()[1]) + ' IN (' + sql + ')', params),
                 )
                 trigger_list.append(triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip))
 
@@ -316,7 +316,7 @@ class CallbackDependOnRelated(DependOnRelated):
                 values=triggers.TriggerNestedSelect(
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
-                        self.this_model._meta.pk.get_attname_column()[1]),
+                        qn(self.this_model._meta.pk.get_attname_column()[1])),
                     **{self.field.get_attname_column()[1]: "NEW.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
                 )
             )
@@ -326,7 +326,7 @@ class CallbackDependOnRelated(DependOnRelated):
                 values=triggers.TriggerNestedSelect(
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
-                        self.this_model._meta.pk.get_attname_column()[1]),
+                        qn(self.this_model._meta.pk.get_attname_column()[1])),
                     **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
                 )
             )
@@ -348,7 +348,7 @@ class CallbackDependOnRelated(DependOnRelated):
                 values=triggers.TriggerNestedSelect(
                     self.field.model._meta.db_table,
                     (content_type,
-                        self.field.get_attname_column()[1]),
+                        qn(self.field.get_attname_column()[1])),
                     **{self.field.model._meta.pk.get_attname_column()[1]: "NEW.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
                 )
             )
@@ -357,7 +357,7 @@ class CallbackDependOnRelated(DependOnRelated):
                 columns=("content_type_id", "object_id"),
                 values=(
                     content_type,
-                    "OLD.%s" % self.field.get_attname_column()[1],
+                    "OLD.%s" % qn(self.field.get_attname_column()[1]),
                 ),
             )
             return [
-- 
2.43.0


From c274e94a13308c945f07b8be300da84c1ec67e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:28 +0000
Subject: [PATCH 24/34] fix: keep fields of abstract models apart in the models
 using them

---
 denorm/fields.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 5906240..4617db9 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -1,4 +1,6 @@
 # -*- coding: utf-8 -*-
+import copy
+
 from django.db import models, connection
 from . import denorms
 from django.conf import settings
@@ -142,6 +144,8 @@ class AggregateField(models.PositiveIntegerField):
         super(AggregateField, self).__init__(**kwargs)
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
+        # fields of abstract models are used by several models
+        self.denorm = copy.copy(self.denorm)
         self.denorm.model = cls
         self.denorm.fieldname = name
         models.signals.class_prepared.connect(self.denorm.setup)
@@ -274,12 +278,14 @@ class CacheKeyField(models.BigIntegerField):
         self.dependencies.append(CacheKeyDependOnRelated(*args, **kwargs))
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
+        # fields of abstract models are used by several models
+        self.dependencies = [copy.copy(depend) for depend in self.dependencies]
         for depend in self.dependencies:
             depend.fieldname = name
         self.denorm = denorms.BaseCacheKeyDenorm(depend_on_related=self.dependencies)
         self.denorm.model = cls
         self.denorm.fieldname = name
-        models.signals.class_prepared.connect(self.denorm.setup)
+        models.signals.class_prepared.connect(self.denorm.setup, sender=cls)
         super(CacheKeyField, self).contribute_to_class(cls, name, *args, **kwargs)
 
     def pre_save(self, model_instance, add):
-- 
2.43.0


From 22a42c01dcfd3aab57d9701177d9bbf5b067d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:04 +0000
Subject: [PATCH 25/34] fix: follow generic relations from the attached rows

A model attached by a generic relation was neither marked nor got a new
cache key when the row it is attached to changed: the trigger was built
on the table of the attached model itself.
---
 denorm/db/mysql/triggers.py      |  2 +-
 denorm/db/postgresql/triggers.py |  2 +-
 denorm/db/sqlite3/triggers.py    |  2 +-
 denorm/dependencies.py           | 78 ++++++++++++++++++++++++++------
 4 files changed, 67 insertions(+), 17 deletions(-)

diff --git a/denorm/db/mysql/triggers.py b/denorm/db/mysql/triggers.py
index 1a95d90..3cc5a8f 100644
--- a/denorm/db/mysql/triggers.py
+++ b/denorm/db/mysql/triggers.py
@@ -13,7 +13,7 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
     def sql(self):
         columns = self.columns
         table = base.quote_name(self.table)
-        where = ", ".join(["%s = %s" % (base.quote_name(k), v) for k, v in self.kwargs.items()])
+        where = " AND ".join(["%s = %s" % (base.quote_name(k), v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
diff --git a/denorm/db/postgresql/triggers.py b/denorm/db/postgresql/triggers.py
index 12822a3..2f0bc36 100644
--- a/denorm/db/postgresql/triggers.py
+++ b/denorm/db/postgresql/triggers.py
@@ -13,7 +13,7 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
     def sql(self):
         columns = self.columns
         table = base.quote_name(self.table)
-        where = ", ".join(["%s = %s" % (base.quote_name(k), v) for k, v in self.kwargs.items()])
+        where = " AND ".join(["%s = %s" % (base.quote_name(k), v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index 9b68c4a..a8527ca 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -17,7 +17,7 @@ class TriggerNestedSelect(base.TriggerNestedSelect):
     def sql(self):
         columns = self.columns
         table = base.quote_name(self.table)
-        where = ", ".join(["%s = %s" % (base.quote_name(k), v) for k, v in self.kwargs.items()])
+        where = " AND ".join(["%s = %s" % (base.quote_name(k), v) for k, v in self.kwargs.items()])
         return 'SELECT DISTINCT %(columns)s FROM %(table)s WHERE %(where)s' % locals(), tuple()
 
 
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index dfbc4cd..fcab52c 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -98,13 +98,24 @@ class DependOnRelated(DenormDependency):
         """
         return remote_field_model(self.field)._meta.get_field(self.field.object_id_field_name).column
 
+    def content_type_column(self):
+        """
+        Returns the column that holds the content types a generic relation points to.
+        """
+        return remote_field_model(self.field)._meta.get_field(self.field.content_type_field_name).column
+
+    def is_backward_generic(self):
+        """
+        Tells if ``this_model`` is the one that gets attached by a generic relation.
+        """
+        return self.type == "backward_m2m" and not isinstance(self.field, models.ManyToManyField)
+
     def content_type_condition(self, row, content_type, using):
         """
         Returns SQL that tells if ``row`` (NEW or OLD) of a generic relation belongs
         to ``content_type``.
         """
-        column = remote_field_model(self.field)._meta.get_field(self.field.content_type_field_name).column
-        return "%s.%s = %s" % (row, self.get_quote_name(using)(column), content_type)
+        return "%s.%s = %s" % (row, self.get_quote_name(using)(self.content_type_column()), content_type)
 
 
 class CacheKeyDependOnRelated(DependOnRelated):
@@ -150,6 +161,30 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
             ]
 
+        if self.is_backward_generic():
+            # Like a forward relation, but only rows attached to ``other_model``
+            # are affected.
+            other_content_type = contenttypes.models.ContentType.objects.get_for_model(self.other_model).pk
+            action_new, action_old = [
+                triggers.TriggerActionUpdate(
+                    model=self.this_model,
+                    columns=(self.column(),),
+                    values=(triggers.RandomBigInt(),),
+                    where="%s = %s.%s AND %s = %s" % (
+                        qn(self.object_id_column()),
+                        row,
+                        qn(self.other_model._meta.pk.get_attname_column()[1]),
+                        qn(self.content_type_column()),
+                        other_content_type,
+                    ),
+                ) for row in ("NEW", "OLD")
+            ]
+            return [
+                triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip),
+                triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
+                triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
+            ]
+
         if self.type == "backward":
             # With backward relations a change in ``other_model`` can affect
             # only one or two instances of ``this_model``.
@@ -191,12 +226,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                     column_name = self.field.m2m_reverse_name()
                     reverse_column_name = self.field.m2m_column_name()
             else:
-                if "forward" in self.type:
-                    column_name = self.object_id_column()
-                    reverse_column_name = self.field.remote_field.model._meta.pk.column
-                if "backward" in self.type:
-                    column_name = self.field.remote_field.model._meta.pk.column
-                    reverse_column_name = self.object_id_column()
+                column_name = self.object_id_column()
 
             where_new = "%s = NEW.%s" % (
                 qn(self.this_model._meta.pk.get_attname_column()[1]),
@@ -336,6 +366,31 @@ class CallbackDependOnRelated(DependOnRelated):
                 triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
             ]
 
+        if self.is_backward_generic():
+            # Like a forward relation, but only rows attached to ``other_model``
+            # are affected.
+            other_content_type = contenttypes.models.ContentType.objects.get_for_model(self.other_model).pk
+            action_new, action_old = [
+                triggers.TriggerActionInsert(
+                    model=denorm.models.DirtyInstance,
+                    columns=("content_type_id", "object_id"),
+                    values=triggers.TriggerNestedSelect(
+                        self.this_model._meta.pk.model._meta.db_table,
+                        (content_type,
+                            qn(self.this_model._meta.pk.get_attname_column()[1])),
+                        **{
+                            self.object_id_column(): "%s.%s" % (row, qn(self.other_model._meta.pk.get_attname_column()[1])),
+                            self.content_type_column(): other_content_type,
+                        }
+                    )
+                ) for row in ("NEW", "OLD")
+            ]
+            return [
+                triggers.Trigger(self.other_model, "after", "update", [action_new], content_type, using, self.skip),
+                triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
+                triggers.Trigger(self.other_model, "after", "delete", [action_old], content_type, using, self.skip),
+            ]
+
         if self.type == "backward":
             # With backward relations a change in ``other_model`` can affect
             # only one or two instances of ``this_model``.
@@ -377,12 +432,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     column_name = qn(self.field.m2m_reverse_name())
                     reverse_column_name = self.field.m2m_column_name()
             else:
-                if "forward" in self.type:
-                    column_name = qn(self.object_id_column())
-                    reverse_column_name = remote_field_model(self.field)._meta.pk.column
-                if "backward" in self.type:
-                    column_name = qn(remote_field_model(self.field)._meta.pk.column)
-                    reverse_column_name = self.object_id_column()
+                column_name = qn(self.object_id_column())
 
             where_new = where_old = None
             if not isinstance(self.field, models.ManyToManyField):
-- 
2.43.0


From f314ebf056993f6f2647ee41261f1fc2a547f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:27 +0000
Subject: [PATCH 26/34] fix: start the daemon when there is no or an outdated
 pid file

os.errno does not exist in current Python versions.
---
 denorm/management/commands/denorm_daemon.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index 24b4d47..3284b61 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -1,3 +1,4 @@
+import errno
 import os
 import sys
 import django
@@ -60,11 +61,11 @@ class Command(BaseCommand):
             os.kill(pid, 0)
             self.stderr.write(self.style.ERROR("daemon already running as pid: %s\n" % (pid,)))
             return True
-        except OSError as err:
-            return err.errno == os.errno.EPERM
-        except IOError as err:
-            if err.errno == 2:
+        except (OSError, IOError) as err:
+            if err.errno in (errno.ENOENT, errno.ESRCH):
                 return False
+            elif err.errno == errno.EPERM:
+                return True
             else:
                 raise
 
-- 
2.43.0


From 09916a36833d686eaeb51ecd6a3fec7153ed8039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:26:27 +0000
Subject: [PATCH 27/34] fix: write the pid file of the daemon

file() does not exist in Python 3.
---
 denorm/daemon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/denorm/daemon.py b/denorm/daemon.py
index a058937..0bda534 100644
--- a/denorm/daemon.py
+++ b/denorm/daemon.py
@@ -151,7 +151,8 @@ def daemonize(noClose=False, pidfile=None):
             # Original child. Exit.
             if pidfile:
                 print(pid)
-                file(pidfile, "w").write(str(pid))
+                with open(pidfile, "w") as f:
+                    f.write(str(pid))
             os._exit(0)
 
         # This is the second child. Set the umask.
-- 
2.43.0


From 9f593591f84ec49b299eec7f32f8514a35c968ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:17 +0000
Subject: [PATCH 28/34] fix: let the daemon flush in a transaction of its own
 in every round

Changes stayed uncommitted and rows locked while the daemon was waiting
for the next round. On SQLite it failed, since transactions can not be
managed by hand there. With -o nothing was flushed at all.
---
 denorm/management/commands/denorm_daemon.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/denorm/management/commands/denorm_daemon.py b/denorm/management/commands/denorm_daemon.py
index 3284b61..4c0963c 100644
--- a/denorm/management/commands/denorm_daemon.py
+++ b/denorm/management/commands/denorm_daemon.py
@@ -12,15 +12,6 @@ from denorm import denorms
 
 PID_FILE = "/tmp/django-denorm-daemon-pid"
 
-def commit_manually(fn):  # replacement of transaction.commit_manually decorator removed in Django 1.6
-    def _commit_manually(*args, **kwargs):
-        transaction.set_autocommit(False)
-        res = fn(*args, **kwargs)
-        transaction.commit()
-        transaction.set_autocommit(True)
-        return res
-    return _commit_manually
-
 
 class Command(BaseCommand):
     def add_arguments(self, parser):
@@ -69,7 +60,6 @@ class Command(BaseCommand):
             else:
                 raise
 
-    @commit_manually
     def handle(self, **options):
         foreground = options['foreground']
         interval = options['interval']
@@ -83,13 +73,12 @@ class Command(BaseCommand):
             from denorm import daemon
             daemon.daemonize(noClose=True, pidfile=pidfile)
 
-        while not run_once:
+        while True:
             try:
-                denorms.flush()
+                with transaction.atomic():
+                    denorms.flush()
+                if run_once:
+                    break
                 sleep(interval)
-                transaction.commit()
             except KeyboardInterrupt:
-                transaction.commit()
                 sys.exit()
-            if run_once:
-                break
-- 
2.43.0


From 49c9c7bda0dab3fb67ac63303fc14c81175040b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:45:59 +0000
Subject: [PATCH 29/34] fix: let models in migrations load and save rows with
 cached attributes

---
 denorm/fields.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/denorm/fields.py b/denorm/fields.py
index 4617db9..a8d4358 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -331,9 +331,13 @@ class CachedField(CacheKeyField):
 
     def contribute_to_class(self, cls, name, *args, **kwargs):
         super(CachedField, self).contribute_to_class(cls, name, *args, **kwargs)
-        setattr(cls, self.name, CacheWrapper(self))
+        # the models used in migrations have the key only
+        if self.func:
+            setattr(cls, self.name, CacheWrapper(self))
 
     def pre_save(self, model_instance, add):
+        if not self.func:
+            return super(CachedField, self).pre_save(model_instance, add)
         value = self.denorm.func(model_instance)
         # The instance may hold outdated related objects, so its value must not
         # get into the cache.
-- 
2.43.0


From e8beccde44ff41285a3a5b6817ce01c3f18c4e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:49 +0000
Subject: [PATCH 30/34] fix: notice changes of rows that are related through a
 proxy model

---
 denorm/db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denorm/db/base.py b/denorm/db/base.py
index e8b79db..4583dac 100644
--- a/denorm/db/base.py
+++ b/denorm/db/base.py
@@ -61,7 +61,7 @@ class TriggerActionUpdate(TriggerAction):
 def get_fields_with_model(model, meta):
     try:
         return [
-            (f, f.model if f.model != model else None)
+            (f, f.model if f.model not in (model, meta.concrete_model) else None)
             for f in meta.get_fields()
             if f.concrete and (
                 not f.is_relation
-- 
2.43.0


From bb67bb18237d4069cb51f0f6d8bd1c802e87b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:15 +0000
Subject: [PATCH 31/34] fix: do not count related objects twice when fixtures
 are loaded

---
 denorm/fields.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/denorm/fields.py b/denorm/fields.py
index a8d4358..8af5a67 100644
--- a/denorm/fields.py
+++ b/denorm/fields.py
@@ -102,6 +102,18 @@ def denormalized(DBField, *args, **kwargs):
     return deco
 
 
+def aggregates_pre_save(sender, instance, raw=False, using=None, **kwargs):
+    """
+    Makes sure that related objects are not counted twice when fixtures are
+    loaded: the values found there already include what the triggers will add.
+    """
+    if raw:
+        instance._state.db = using
+        for field in sender._meta.local_concrete_fields:
+            if isinstance(field, AggregateField):
+                setattr(instance, field.attname, field.denorm.func(instance))
+
+
 class AggregateField(models.PositiveIntegerField):
 
     def get_denorm(self, *args, **kwargs):
@@ -149,6 +161,7 @@ class AggregateField(models.PositiveIntegerField):
         self.denorm.model = cls
         self.denorm.fieldname = name
         models.signals.class_prepared.connect(self.denorm.setup)
+        models.signals.pre_save.connect(aggregates_pre_save, sender=cls)
         super(AggregateField, self).contribute_to_class(cls, name, *args, **kwargs)
 
     def south_field_triple(self):
-- 
2.43.0


From acd9bfdce429fb607cca197e8afb33fc76bb1d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:15 +0000
Subject: [PATCH 32/34] fix: do not compute many-to-many fields while fixtures
 are loaded

---
 denorm/denorms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index 60b97af..ed49abd 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -15,10 +15,13 @@ from django.db.models.sql.where import WhereNode
 import django
 from decimal import Decimal
 
-def many_to_many_pre_save(sender, instance, **kwargs):
+def many_to_many_pre_save(sender, instance, raw=False, **kwargs):
     """
     Updates denormalised many-to-many fields for the model
     """
+    if raw:
+        # Related objects may not be loaded yet, this is left to flush()
+        return
     if instance.pk and not instance._state.adding:
         # Need a primary key and a row in the database to do m2m stuff.
         # New instances may have a primary key already, many_to_many_post_save
@@ -53,8 +56,8 @@ def many_to_many_pre_save(sender, instance, **kwargs):
                         setattr(instance, m2m.attname, values)
 
 
-def many_to_many_post_save(sender, instance, created, **kwargs):
-    if created:
+def many_to_many_post_save(sender, instance, created, raw=False, **kwargs):
+    if created and not raw:
         def check_resave():
             for m2m in sender._meta.local_many_to_many:
                 if hasattr(m2m, 'denorm'):
-- 
2.43.0


From adfd0c733d593fe58fbe2131d27781eab06f278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:23:02 +0000
Subject: [PATCH 33/34] fix: notice changes which SQLite triggers make in their
 own table

On SQLite a trigger does not run again for changes it makes itself.
A count of rows of the same table changed without marking the rows
that depend on it. The two jobs now have separate triggers.
---
 denorm/db/sqlite3/triggers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/denorm/db/sqlite3/triggers.py b/denorm/db/sqlite3/triggers.py
index a8527ca..6294cdb 100644
--- a/denorm/db/sqlite3/triggers.py
+++ b/denorm/db/sqlite3/triggers.py
@@ -58,7 +58,14 @@ class Trigger(base.Trigger):
         name = base.Trigger.name(self)
         if self.content_type_field:
             name += "_%s" % self.content_type
-        return name
+        # SQLite does not run a trigger again for changes it makes itself, so
+        # changes of the own table need a trigger that is separate from those
+        # which have to notice them.
+        columns = set()
+        for action in self.actions:
+            if isinstance(action, TriggerActionUpdate) and action.model._meta.db_table == self.db_table:
+                columns.update(action.columns)
+        return "_".join([name] + sorted(columns))
 
     def sql(self):
         qn = self.connection.ops.quote_name
-- 
2.43.0


From 73f86095340b92ca75690762f9dbfe5b078fe47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:03:17 +0000
Subject: [PATCH 34/34] fix: follow foreign keys that point to a column other
 than the primary key

---
 denorm/denorms.py      |  2 +-
 denorm/dependencies.py | 33 +++++++++++++++++++++++++++------
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/denorm/denorms.py b/denorm/denorms.py
index ed49abd..6cecf5a 100644
--- a/denorm/denorms.py
+++ b/denorm/denorms.py
@@ -406,7 +406,7 @@ class AggregateDenorm(Denorm):
             }]
             dec_where = [action.replace('NEW.', 'OLD.') for action in inc_where]
         else:
-            pk_name = qn(self.model._meta.pk.get_attname_column()[1])
+            pk_name = qn(related_field.foreign_related_fields[0].column)
             fk_name = qn(related_field.column)
             inc_where = ["%s = NEW.%s" % (pk_name, fk_name)]
             dec_where = ["%s = OLD.%s" % (pk_name, fk_name)]
diff --git a/denorm/dependencies.py b/denorm/dependencies.py
index fcab52c..020c504 100644
--- a/denorm/dependencies.py
+++ b/denorm/dependencies.py
@@ -92,6 +92,13 @@ class DependOnRelated(DenormDependency):
         # Now the candidates list contains exactly one item, thats our winner.
         self.type, self.field = candidates[0]
 
+    def target_column(self):
+        """
+        Returns the column a ForeignKey points to, this is the primary key unless
+        it was declared with ``to_field``.
+        """
+        return self.field.foreign_related_fields[0].column
+
     def object_id_column(self):
         """
         Returns the column that holds the primary keys a generic relation points to.
@@ -143,7 +150,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
                     qn(self.field.get_attname_column()[1]),
-                    qn(self.other_model._meta.pk.get_attname_column()[1]),
+                    qn(self.target_column()),
                 ),
             )
             action_old = triggers.TriggerActionUpdate(
@@ -152,7 +159,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
                     qn(self.field.get_attname_column()[1]),
-                    qn(self.other_model._meta.pk.get_attname_column()[1]),
+                    qn(self.target_column()),
                 ),
             )
             return [
@@ -196,7 +203,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 columns=(self.column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = NEW.%s" % (
-                    qn(self.this_model._meta.pk.get_attname_column()[1]),
+                    qn(self.target_column()),
                     qn(self.field.get_attname_column()[1]),
                 ),
             )
@@ -205,7 +212,7 @@ class CacheKeyDependOnRelated(DependOnRelated):
                 columns=(self.column(),),
                 values=(triggers.RandomBigInt(),),
                 where="%s = OLD.%s" % (
-                    qn(self.this_model._meta.pk.get_attname_column()[1]),
+                    qn(self.target_column()),
                     qn(self.field.get_attname_column()[1]),
                 ),
             )
@@ -347,7 +354,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
                         qn(self.this_model._meta.pk.get_attname_column()[1])),
-                    **{self.field.get_attname_column()[1]: "NEW.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
+                    **{self.field.get_attname_column()[1]: "NEW.%s" % qn(self.target_column())}
                 )
             )
             action_old = triggers.TriggerActionInsert(
@@ -357,7 +364,7 @@ class CallbackDependOnRelated(DependOnRelated):
                     self.this_model._meta.pk.model._meta.db_table,
                     (content_type,
                         qn(self.this_model._meta.pk.get_attname_column()[1])),
-                    **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.other_model._meta.pk.get_attname_column()[1])}
+                    **{self.field.get_attname_column()[1]: "OLD.%s" % qn(self.target_column())}
                 )
             )
             return [
@@ -415,6 +422,20 @@ class CallbackDependOnRelated(DependOnRelated):
                     "OLD.%s" % qn(self.field.get_attname_column()[1]),
                 ),
             )
+            pk_column = self.this_model._meta.pk.get_attname_column()[1]
+            if self.target_column() != pk_column:
+                # The ForeignKey does not contain the primary keys of ``this_model``.
+                action_new, action_old = [
+                    triggers.TriggerActionInsert(
+                        model=denorm.models.DirtyInstance,
+                        columns=("content_type_id", "object_id"),
+                        values=triggers.TriggerNestedSelect(
+                            self.this_model._meta.db_table,
+                            (content_type, qn(pk_column)),
+                            **{self.target_column(): "%s.%s" % (row, qn(self.field.get_attname_column()[1]))}
+                        )
+                    ) for row in ("NEW", "OLD")
+                ]
             return [
                 triggers.Trigger(self.other_model, "after", "update", [action_new, action_old], content_type, using, self.skip),
                 triggers.Trigger(self.other_model, "after", "insert", [action_new], content_type, using, self.skip),
-- 
2.43.0

