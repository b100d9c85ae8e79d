From d44a5ff726f3bfc171009998fa7da567e634dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 01/58] fix: set the comment of a PostgreSQL column that is
 re-created to migrate its data

---
 pysqlsync/dialect/postgresql/mutation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 03da4af..274c872 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -53,9 +53,13 @@ class PostgreSQLMutator(Mutator):
         for target_column in target.columns.values():
             source_column = source.columns.get(target_column.name.id)
 
-            source_desc = (
-                source_column.description if source_column is not None else None
-            )
+            if source_column is None:
+                source_desc = None
+            elif self.is_column_migrated(source_column, target_column):
+                # a migrated column is re-created (without a comment)
+                source_desc = None
+            else:
+                source_desc = source_column.description
             target_desc = target_column.description
 
             if target_desc is None:
-- 
2.43.0


From f6891cbc95430edff188afd6d5a53488b814ca94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 02/58] fix: escape the statement that creates a schema in
 Microsoft SQL Server as a string literal

---
 pysqlsync/dialect/mssql/object_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 45f3aff..f918e85 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -80,7 +80,8 @@ class MSSQLNamespace(Namespace):
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
             # Microsoft SQL Server requires a separate batch for creating a schema
-            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC('CREATE SCHEMA {self.name}');"
+            create_stmt = quote(f"CREATE SCHEMA {self.name}")
+            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC({create_stmt});"
         else:
             return None
 
-- 
2.43.0


From 340e0484451abc59ce9e395697c8bfaf3cc09e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:44 +0000
Subject: [PATCH 03/58] fix: escape the statement that drops an Oracle table as
 a string literal

---
 pysqlsync/dialect/oracle/object_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 5469aff..851cb12 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,7 +1,7 @@
 import re
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType
+from pysqlsync.model.data_types import SqlTimestampType, quote
 
 
 class OracleColumn(Column):
@@ -35,9 +35,10 @@ class OracleTable(Table):
         )
 
     def drop_if_exists_stmt(self) -> str:
+        drop_stmt = quote(f"DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE")
         return (
             "BEGIN\n"
-            f"    EXECUTE IMMEDIATE 'DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE';\n"
+            f"    EXECUTE IMMEDIATE {drop_stmt};\n"
             "EXCEPTION WHEN OTHERS THEN IF SQLCODE != -942 THEN RAISE; END IF;\n"
             "END;"
         )
-- 
2.43.0


From 91a114040bc476992126f5d5aee12e96dde9d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 04/58] fix: leave schemas untouched whose drop is not
 permitted

---
 pysqlsync/formation/mutation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 35a5c75..b993775 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -362,9 +362,12 @@ class Mutator:
             for source_ns, target_ns in ns_mutate
         )
 
-        # remove old constraints
-        statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
         if self.options.allow_drop_namespace:
+            # remove old constraints
+            statements.extend(
+                namespace.drop_constraints_stmt() for namespace in ns_drop
+            )
+
             # drop objects in each namespace removed
             statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
 
-- 
2.43.0


From 9ca7ae1c30293df5189dfc69afaafc14ad9c3991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:25 +0000
Subject: [PATCH 05/58] fix: Trino generator observes the drop permissions

---
 pysqlsync/dialect/trino/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/trino/generator.py b/pysqlsync/dialect/trino/generator.py
index d6c6a19..67110e6 100644
--- a/pysqlsync/dialect/trino/generator.py
+++ b/pysqlsync/dialect/trino/generator.py
@@ -1,4 +1,5 @@
 from pysqlsync.base import BaseGenerator, GeneratorOptions
+from pysqlsync.formation.mutation import Mutator
 from pysqlsync.formation.py_to_sql import (
     ArrayMode,
     DataclassConverter,
@@ -12,7 +13,7 @@ from pysqlsync.util.typing import override
 
 class TrinoGenerator(BaseGenerator):
     def __init__(self, options: GeneratorOptions) -> None:
-        super().__init__(options)
+        super().__init__(options, mutator=Mutator(options.synchronization))
         self.converter = DataclassConverter(
             options=DataclassConverterOptions(
                 enum_mode=options.enum_mode or EnumMode.CHECK,
-- 
2.43.0


From 5bed6ec23db3cf77540ce248570656eaebf253ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 06/58] fix: a partial upsert leaves columns that are not
 supplied unchanged

---
 pysqlsync/dialect/mysql/generator.py      | 2 +-
 pysqlsync/dialect/postgresql/generator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index d7487fc..6abf193 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -107,7 +107,7 @@ class MySQLGenerator(BaseGenerator):
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         if value_columns:
             defs = [_field_update(column.name) for column in value_columns]
         else:
diff --git a/pysqlsync/dialect/postgresql/generator.py b/pysqlsync/dialect/postgresql/generator.py
index 4baa8a0..07c9325 100644
--- a/pysqlsync/dialect/postgresql/generator.py
+++ b/pysqlsync/dialect/postgresql/generator.py
@@ -99,7 +99,7 @@ class PostgreSQLGenerator(BaseGenerator):
             self.placeholder(index) for index, _ in enumerate(columns, start=1)
         )
         statements.append(f"({column_list}) VALUES ({value_list})")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         keys = ", ".join(str(key) for key in table.primary_key)
         if value_columns:
             statements.append(f"ON CONFLICT ({keys}) DO UPDATE SET")
-- 
2.43.0


From 21cbaa53e84e84b1df16218544484c93f919f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 07/58] fix: look up enumeration values of a list column that
 has NULL in some records

---
 pysqlsync/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0ef6a2c..7f50777 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -678,7 +678,9 @@ class EnumListTransformer(BaseEnumTransformer):
         # a list of enumeration values represented as a list of strings
         values: set[Optional[str]] = set()
         for record in records:
-            values.update(record[self.index])
+            items = record[self.index]
+            if items is not None:
+                values.update(items)
         values.discard(None)  # do not insert NULL into referenced table
         enum_list_dict = await self._merge_lookup_table(typing.cast(set[str], values))
         return self.generator.get_enum_list_transformer(enum_list_dict)
-- 
2.43.0


From fb8ca95f2b170f3396c689b3b63115a36e8562ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:29 +0000
Subject: [PATCH 08/58] fix: store a set in a JSON column as an array

---
 pysqlsync/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 7f50777..2d1d606 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -516,7 +516,9 @@ class BaseGenerator(abc.ABC):
             isinstance(column.data_type, SqlVariableCharacterType)
             and (field_type is dict or field_type is list or field_type is set)
         ):
-            return lambda field: _JSON_ENCODER.encode(field)
+            return lambda field: _JSON_ENCODER.encode(
+                list(field) if isinstance(field, set) else field
+            )
 
         if is_type_enum(field_type):
             return lambda field: field.value
-- 
2.43.0


From 4bb4160e866bf2bfbd8ba9233ce302d559fe570b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:37 +0000
Subject: [PATCH 09/58] fix: insert and upsert statements list columns in the
 order of the fields of the data-class

---
 pysqlsync/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 2d1d606..5338076 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -440,13 +440,15 @@ class BaseGenerator(abc.ABC):
         "Returns a SQL statement to insert or ignore records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_insert_stmt(table_object)
+        order = tuple(field.name for field in dataclasses.fields(table))
+        return self.get_table_insert_stmt(table_object, order)
 
     def get_dataclass_upsert_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to insert or update records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_upsert_stmt(table_object)
+        order = tuple(field.name for field in dataclasses.fields(table))
+        return self.get_table_upsert_stmt(table_object, order)
 
     def get_dataclass_delete_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to delete records from a database table."
-- 
2.43.0


From 44b8d8087dd7a3f974bb2be207afa6979f2d8f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 10/58] fix: convert values of optional and annotated
 data-class fields

---
 pysqlsync/base.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 5338076..ee64182 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -44,6 +44,7 @@ from .formation.object_types import (
 from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
 from .model.data_types import SqlJsonType, SqlVariableCharacterType
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
+from .model.properties import get_field_properties
 from .python_types import dataclass_to_code, module_to_code
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -492,13 +493,24 @@ class BaseGenerator(abc.ABC):
         "Returns a tuple of callable function objects that extracts each field of a data-class."
 
         return tuple(
-            self.get_field_extractor(
+            self._get_nullable_extractor(
                 table.columns[field.name], field.name, typing.cast(type, field.type)
             )
             for field in dataclasses.fields(entity_type)
             if not (skip_identity and table.columns[field.name].identity)
         )
 
+    def _get_nullable_extractor(
+        self, column: Column, field_name: str, field_type: type
+    ) -> Callable[[Any], Any]:
+        "Returns a callable that extracts a field whose type may be annotated or optional; NULL has no conversion."
+
+        plain_type = typing.cast(type, get_field_properties(field_type).plain_type)
+        extractor = self.get_field_extractor(column, field_name, plain_type)
+        return lambda obj: (
+            extractor(obj) if getattr(obj, field_name) is not None else None
+        )
+
     def get_field_extractor(
         self, column: Column, field_name: str, field_type: type
     ) -> Callable[[Any], Any]:
-- 
2.43.0


From 980292609c8b40ac7690210bebe0a8cad452777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:12 +0000
Subject: [PATCH 11/58] fix: convert both naive and timezone-aware time values
 for Oracle

---
 pysqlsync/dialect/oracle/generator.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 9a16b89..d7448a3 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -33,6 +33,16 @@ MIN_DATETIME = datetime.datetime.min.replace(tzinfo=datetime.timezone.utc)
 MIN_DATE = datetime.date.min
 
 
+def time_to_interval(value: datetime.time) -> datetime.timedelta:
+    "Time elapsed since midnight (UTC if time is timezone-aware)."
+
+    point = datetime.datetime.combine(MIN_DATE, value)
+    if point.tzinfo is None:
+        return point - MIN_DATETIME.replace(tzinfo=None)
+    else:
+        return point - MIN_DATETIME
+
+
 class OracleGenerator(BaseGenerator):
     "Generator for Oracle."
 
@@ -94,12 +104,7 @@ class OracleGenerator(BaseGenerator):
         elif is_ip_address_type(field_type):
             return lambda obj: getattr(obj, field_name).packed
         elif field_type is datetime.time:
-            return (
-                lambda obj: datetime.datetime.combine(
-                    MIN_DATE, getattr(obj, field_name)
-                )
-                - MIN_DATETIME
-            )
+            return lambda obj: time_to_interval(getattr(obj, field_name))
 
         return super().get_field_extractor(column, field_name, field_type)
 
@@ -112,9 +117,6 @@ class OracleGenerator(BaseGenerator):
         elif is_ip_address_type(field_type):
             return lambda field: field.packed
         elif field_type is datetime.time:
-            return (
-                lambda field: datetime.datetime.combine(datetime.date.min, field)
-                - datetime.datetime.min
-            )
+            return time_to_interval
 
         return super().get_value_transformer(column, field_type)
-- 
2.43.0


From e5b4fa774cb9e3379e105c0a76233f49985dd8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:40 +0000
Subject: [PATCH 12/58] fix: fields omitted by type and identity columns are
 left out of statements for rows

---
 pysqlsync/base.py                          | 25 ++++++++++++++++++++--
 pysqlsync/dialect/postgresql/connection.py |  3 ++-
 pysqlsync/dialect/redshift/connection.py   |  3 ++-
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index ee64182..840a655 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1102,10 +1102,15 @@ class BaseContext(abc.ABC):
         Override in engine-specific derived classes.
         """
 
+        # statement omits values for identity columns
+        field_names = tuple(
+            "" if name in table.columns and table.columns[name].identity else name
+            for name in self._get_field_names(table, field_types, field_names)
+        )
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(name for name in field_names if name)
         statement = self.connection.generator.get_table_insert_stmt(table, order)
         await self._execute_typed(statement, record_generator, table, order)
 
@@ -1160,14 +1165,30 @@ class BaseContext(abc.ABC):
         Override in engine-specific derived classes.
         """
 
+        field_names = self._get_field_names(table, field_types, field_names)
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(name for name in field_names if name)
         statement = self.connection.generator.get_table_upsert_stmt(table, order)
 
         await self._execute_typed(statement, record_generator, table, order)
 
+    def _get_field_names(
+        self,
+        table: Table,
+        field_types: tuple[type, ...],
+        field_names: Optional[tuple[str, ...]],
+    ) -> tuple[str, ...]:
+        "Returns a label for each record field, which is an empty string for an omitted field."
+
+        if field_names is None:
+            field_names = tuple(name for name in table.columns.keys())
+        return tuple(
+            "" if field_type is type(None) else field_name
+            for field_type, field_name in zip(field_types, field_names)
+        )
+
     async def _generate_records(
         self,
         table: Table,
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index cea28ed..4edc0ee 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -129,10 +129,11 @@ class PostgreSQLContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
+        field_names = self._get_field_names(table, field_types, field_names)
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = tuple(name for name in field_names if name)
         async for batch in record_generator.batches():
             result = await self.native_connection.copy_records_to_table(
                 schema_name=table.name.scope_id,
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 3277b0b..d034e37 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -125,7 +125,8 @@ class RedshiftContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
-        order = tuple(name for name in field_names if name) if field_names else None
+        field_names = self._get_field_names(table, field_types, field_names)
+        order = tuple(name for name in field_names if name)
         columns = [col.name for col in table.get_columns(order)]
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
-- 
2.43.0


From 05370cae30911b01189e07244423dccca2ddab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:24 +0000
Subject: [PATCH 13/58] fix: inserting no data issues no statement with
 PostgreSQL and Redshift

---
 pysqlsync/dialect/postgresql/connection.py | 5 ++++-
 pysqlsync/dialect/redshift/connection.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 4edc0ee..6f13d36 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 import ssl
 import typing
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Optional, Sized, TypeVar
 
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -105,6 +105,9 @@ class PostgreSQLContext(BaseContext):
     async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         if not is_dataclass_type(table):
             raise TypeError(f"expected dataclass type, got: {table}")
+        if isinstance(data, Sized) and not len(data):
+            LOGGER.warning("no data to insert")
+            return
         generator = self.connection.generator
         table_name = generator.get_qualified_id(ClassRef(table))
         records = generator.get_dataclasses_as_records(table, data, skip_identity=True)
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index d034e37..4c0a755 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -3,7 +3,7 @@ import logging
 import re
 import typing
 from io import BytesIO
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Optional, Sized, TypeVar
 
 import redshift_connector
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -106,6 +106,9 @@ class RedshiftContext(BaseContext):
     def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         if not is_dataclass_type(table):
             raise TypeError(f"expected dataclass type, got: {table}")
+        if isinstance(data, Sized) and not len(data):
+            LOGGER.warning("no data to insert")
+            return
         generator = self.connection.generator
         table_name = generator.get_qualified_id(ClassRef(table))
         columns = [
-- 
2.43.0


From cebf3c47d9d7fb3091bd218d6b2a8f6787273af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:35 +0000
Subject: [PATCH 14/58] fix: PostgreSQL connections without TLS do not use TLS,
 and allow retries with TLS when the server insists on it

---
 pysqlsync/dialect/postgresql/connection.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 6f13d36..e27fa87 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 import ssl
 import typing
-from typing import Iterable, Optional, Sized, TypeVar
+from typing import Iterable, Literal, Optional, Sized, TypeVar, Union
 
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -28,17 +28,22 @@ class PostgreSQLConnection(BaseConnection):
         LOGGER.info("connecting to %s", self.params)
 
         ssl_mode = self.params.ssl
-        if ssl_mode is None or ssl_mode is ConnectionSSLMode.disable:
+        if ssl_mode is None:
             return await self._open()
+        elif ssl_mode is ConnectionSSLMode.disable:
+            return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.prefer:
             try:
                 return await self._open(create_context(ssl_mode))
             except ConnectionError:
-                return await self._open()
+                return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.allow:
             try:
-                return await self._open()
-            except ConnectionError:
+                return await self._open(False)
+            except (
+                ConnectionError,
+                asyncpg.InvalidAuthorizationSpecificationError,
+            ):
                 return await self._open(create_context(ssl_mode))
         elif (
             ssl_mode is ConnectionSSLMode.require
@@ -49,7 +54,10 @@ class PostgreSQLConnection(BaseConnection):
         else:
             raise ValueError(f"unsupported SSL mode: {ssl_mode}")
 
-    async def _open(self, ctx: Optional[ssl.SSLContext] = None) -> BaseContext:
+    async def _open(
+        self, ctx: Union[ssl.SSLContext, Literal[False], None] = None
+    ) -> BaseContext:
+        # `asyncpg` takes `None` as "prefer SSL", and `False` as "no SSL"
         conn = await asyncpg.connect(
             host=self.params.host,
             port=self.params.port,
-- 
2.43.0


From 9f2550aa7ebda493098ba9184b81369113d36563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:58 +0000
Subject: [PATCH 15/58] fix: query results of Redshift can be read as
 data-class instances

---
 pysqlsync/dialect/redshift/connection.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 4c0a755..bce30b9 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -19,7 +19,7 @@ from pysqlsync.base import (
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
-from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
+from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
 from pysqlsync.util.typing import override
 
@@ -97,7 +97,11 @@ class RedshiftContext(BaseContext):
             records = cursor.execute(statement).fetchall()
 
             if is_dataclass_type(signature):
-                return resultset_unwrap_object(signature, records)  # type: ignore
+                # the driver returns each row as a list of values
+                names = [column[0] for column in cursor.description]
+                return resultset_unwrap_dict(
+                    signature, (dict(zip(names, record)) for record in records)
+                )  # type: ignore
             else:
                 return resultset_unwrap_tuple(signature, records)
 
-- 
2.43.0


From c7b3cf46bd47c1d93e92d0c97b399725296f7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 16/58] fix: convert primary key values passed to delete_data
 as the driver expects

---
 pysqlsync/base.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 840a655..56e1dbd 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -487,6 +487,25 @@ class BaseGenerator(abc.ABC):
         )
         return (tuple(extractor(item) for extractor in extractors) for item in items)
 
+    def get_dataclass_keys_as_records(
+        self, entity_type: type[DataclassInstance], keys: Iterable[Any]
+    ) -> Iterable[tuple]:
+        "Converts primary key values of a data-class into a list of records to look up in a database table."
+
+        table_object = self.state.get_table(
+            self.get_qualified_id(ClassRef(entity_type))
+        )
+        column = table_object.get_primary_column()
+        field_types = {f.name: f.type for f in dataclasses.fields(entity_type)}
+        properties = get_field_properties(field_types[column.name.local_id])
+        transformer = self.get_value_transformer(
+            column, typing.cast(type, properties.plain_type)
+        )
+        if transformer is not None:
+            return ((transformer(key),) for key in keys)
+        else:
+            return ((key,) for key in keys)
+
     def _get_dataclass_extractors(
         self, table: Table, entity_type: type[DataclassInstance], *, skip_identity: bool
     ) -> tuple[Callable[[Any], Any], ...]:
@@ -1053,7 +1072,8 @@ class BaseContext(abc.ABC):
 
         generator = self.connection.generator
         statement = generator.get_dataclass_delete_stmt(table)
-        await self.execute_all(statement, ((key,) for key in keys))
+        records = generator.get_dataclass_keys_as_records(table, keys)
+        await self.execute_all(statement, records)
 
     async def insert_rows(
         self,
-- 
2.43.0


From 9adfa5650aff57a1d5b1d8dfe98be7baa043cbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 17/58] fix: decode percent-encoded database name in connection
 string

---
 pysqlsync/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/factory.py b/pysqlsync/factory.py
index aef20f1..ef4e3f3 100644
--- a/pysqlsync/factory.py
+++ b/pysqlsync/factory.py
@@ -103,7 +103,7 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
         port=parts.port,
         username=unquote(parts.username) if parts.username else None,
         password=unquote(parts.password) if parts.password else None,
-        database=parts.path.lstrip("/") if parts.path else None,
+        database=unquote(parts.path.lstrip("/")) if parts.path else None,
         ssl=ssl,
     )
 
-- 
2.43.0


From 98ad291b4d0d6d5e37eba478d0c7e807eebe4db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 18/58] fix: reject a blank TLS mode in connection string
 instead of ignoring it

---
 pysqlsync/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/factory.py b/pysqlsync/factory.py
index ef4e3f3..e4e1cf0 100644
--- a/pysqlsync/factory.py
+++ b/pysqlsync/factory.py
@@ -84,7 +84,7 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
 
     ssl: Optional[ConnectionSSLMode] = None
     if parts.query:
-        query = parse_qs(parts.query, strict_parsing=True)
+        query = parse_qs(parts.query, keep_blank_values=True, strict_parsing=True)
         if "ssl" in query:
             if len(query["ssl"]) != 1:
                 raise ValueError(
-- 
2.43.0


From 9e2a18cc563d2b87dbc8e0b9193993dfd0d5c9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:59 +0000
Subject: [PATCH 19/58] fix: take element types of arrays into account when
 ordering schemas

---
 pysqlsync/formation/object_types.py | 31 ++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 429a648..7b43401 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -6,7 +6,12 @@ from typing import Any, Iterable, Optional, overload
 from strong_typing.inspection import is_dataclass_instance
 from strong_typing.topological import topological_sort
 
-from ..model.data_types import SqlDataType, SqlUserDefinedType, constant
+from ..model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlUserDefinedType,
+    constant,
+)
 from ..model.id_types import LocalId, SupportsQualifiedId
 from .object_dict import ObjectDict
 
@@ -38,6 +43,14 @@ def join_or_none(statements: Iterable[Optional[str]]) -> Optional[str]:
     return join(statements) or None
 
 
+def _get_element_type(data_type: SqlDataType) -> SqlDataType:
+    "Data type of a single value, or the elements of an array."
+
+    return (
+        data_type.element_type if isinstance(data_type, SqlArrayType) else data_type
+    )
+
+
 class MappingError(RuntimeError):
     "Raised when a Python class cannot map to a database entity."
 
@@ -163,9 +176,11 @@ class StructType(DatabaseObject, QualifiedObject):
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
         return set(
-            m.data_type.ref
-            for m in self.members.values()
-            if isinstance(m.data_type, SqlUserDefinedType)
+            data_type.ref
+            for data_type in (
+                _get_element_type(m.data_type) for m in self.members.values()
+            )
+            if isinstance(data_type, SqlUserDefinedType)
         )
 
     def create_stmt(self) -> str:
@@ -523,9 +538,11 @@ class Table(DatabaseObject, QualifiedObject):
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
         return set(
-            c.data_type.ref
-            for c in self.columns.values()
-            if isinstance(c.data_type, SqlUserDefinedType)
+            data_type.ref
+            for data_type in (
+                _get_element_type(c.data_type) for c in self.columns.values()
+            )
+            if isinstance(data_type, SqlUserDefinedType)
         )
 
     def get_referenced_tables(self) -> set[SupportsQualifiedId]:
-- 
2.43.0


From 6733879bae16b8e67673a6201f01aee988c3fd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:09 +0000
Subject: [PATCH 20/58] fix: escape backslash in MySQL comments

---
 pysqlsync/dialect/mysql/mutation.py     |  6 +++---
 pysqlsync/dialect/mysql/object_types.py | 10 ++++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index e199c5d..d19249f 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -12,7 +12,7 @@ from pysqlsync.formation.object_types import (
 from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType, quote
 from pysqlsync.model.id_types import LocalId
 
-from .object_types import MySQLColumn, MySQLTable
+from .object_types import MySQLColumn, MySQLTable, sql_quoted_string
 
 
 class MySQLMutator(Mutator):
@@ -54,14 +54,14 @@ class MySQLMutator(Mutator):
         if source_desc is None:
             if target_desc is not None:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {sql_quoted_string(target_desc)};"
                 )
         else:
             if target_desc is None:
                 statements.append(f"ALTER TABLE {target.name} COMMENT = {quote('')};")
             elif source_desc != target_desc:
                 statements.append(
-                    f"ALTER TABLE {target.name} COMMENT = {quote(target_desc)};"
+                    f"ALTER TABLE {target.name} COMMENT = {sql_quoted_string(target_desc)};"
                 )
 
         return join_or_none(statements)
diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index c73b678..babd3ff 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -12,6 +12,12 @@ from pysqlsync.model.data_types import SqlEnumType, quote
 from pysqlsync.model.id_types import LocalId
 
 
+def sql_quoted_string(text: str) -> str:
+    "Quotes a string in which backslash is an escape character."
+
+    return quote(text.replace("\\", "\\\\"))
+
+
 class MySQLTable(Table):
     @property
     def short_description(self) -> Optional[str]:
@@ -33,7 +39,7 @@ class MySQLTable(Table):
         )
         definition = ",\n".join(defs)
         comment = (
-            f"\nCOMMENT = {quote(self.short_description)}"
+            f"\nCOMMENT = {sql_quoted_string(self.short_description)}"
             if self.short_description
             else ""
         )
@@ -73,7 +79,7 @@ class MySQLColumn(Column):
                     f"comment for column {self.name} too long, expected: maximum 1024; got: {len(description)}"
                 )
 
-            return quote(description)
+            return sql_quoted_string(description)
         else:
             return None
 
-- 
2.43.0


From 4e829d68bda5c97f2ac9290131f2a2e3776e4388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 21/58] fix: write NUL with three octal digits in string
 literals

---
 pysqlsync/dialect/delta/object_types.py     | 2 +-
 pysqlsync/dialect/snowflake/object_types.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/delta/object_types.py b/pysqlsync/dialect/delta/object_types.py
index e7a80b1..f1f5f10 100644
--- a/pysqlsync/dialect/delta/object_types.py
+++ b/pysqlsync/dialect/delta/object_types.py
@@ -9,7 +9,7 @@ _sql_quoted_str_table = str.maketrans(
         "\\": "\\\\",
         "'": "\\'",
         '"': '\\"',
-        "\0": "\\0",
+        "\0": "\\000",
         "\b": "\\b",
         "\n": "\\n",
         "\r": "\\r",
diff --git a/pysqlsync/dialect/snowflake/object_types.py b/pysqlsync/dialect/snowflake/object_types.py
index c9c3b8c..281fadd 100644
--- a/pysqlsync/dialect/snowflake/object_types.py
+++ b/pysqlsync/dialect/snowflake/object_types.py
@@ -10,7 +10,7 @@ _sql_quoted_str_table = str.maketrans(
         "\\": "\\\\",
         "'": "\\'",
         '"': '\\"',
-        "\0": "\\0",
+        "\0": "\\000",
         "\b": "\\b",
         "\f": "\\f",
         "\n": "\\n",
-- 
2.43.0


From ec4c08357ff35c8543cb9813b584e42e7bec1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:56 +0000
Subject: [PATCH 22/58] fix: do not stop reading tab-separated values at an
 empty record

---
 pysqlsync/data/exchange.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index f20925c..eba2b7b 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -134,20 +134,20 @@ class TextReader:
 
         rows: list[tuple] = []
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            rows.append(self.parser.parse_line(line))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     def records(self) -> Iterable[tuple]:
         "An iterator to records in a file-like object."
 
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            yield self.parser.parse_line(line)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
 
 
 class AsyncBinaryIO(Protocol):
@@ -191,10 +191,9 @@ class AsyncTextReader:
         rows: list[tuple] = []
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            rows.append(self.parser.parse_line(record))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     async def records(self) -> AsyncIterator[tuple]:
@@ -202,7 +201,6 @@ class AsyncTextReader:
 
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            yield self.parser.parse_line(record)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
-- 
2.43.0


From 71a018a827b0a32540f84d08c4a9ccdd39017e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:03 +0000
Subject: [PATCH 23/58] fix: permit mapping only some of the fields to read
 tab-separated values

---
 pysqlsync/data/exchange.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index eba2b7b..57ddf0c 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -99,6 +99,7 @@ def fields_to_types(
             reference_to_key(field.type, entity_type)
         ).tsv_type
         for field in dataclass_fields(entity_type)
+        if field.name in field_mapping
     }
 
 
-- 
2.43.0


From 02fb0e5a1aaf347245dfe957dbb7ee51255f69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 24/58] fix: values of an enumeration type are restored from
 its definition

---
 pysqlsync/formation/data_types.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index e5abc76..c8f780e 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -26,6 +26,17 @@ from ..model.data_types import (
 from ..model.id_types import QualifiedId
 
 
+def _unquote(value: str) -> str:
+    "Restores a value from the text between quotes in an enumeration type definition."
+
+    escapes = {"0": "\0", "n": "\n", "r": "\r"}
+    return re.sub(
+        r"''|\\(.)",
+        lambda m: escapes.get(m.group(1), m.group(1)) if m.group(1) else "'",
+        value,
+    )
+
+
 @dataclasses.dataclass
 class SqlDiscoveryOptions:
     substitutions: dict[str, SqlDataType] = dataclasses.field(default_factory=dict)
@@ -134,7 +145,8 @@ class SqlDiscovery:
         if m is not None:
             value_list = m.group(1)
             values = [
-                value for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
+                _unquote(value)
+                for value in re.findall(r"'((?:[^']|'')*)'(?:,|$)", value_list)
             ]
             return SqlEnumType(values)
 
-- 
2.43.0


From 2cea60ea4346451a9a79c005d29f5ad39567ff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 25/58] fix: the time zone in the definition of a timestamp
 type is recognized in any case

---
 pysqlsync/formation/data_types.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index c8f780e..6a1b14e 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -115,10 +115,8 @@ class SqlDiscovery:
             re.IGNORECASE,
         )
         if m is not None:
-            if m.group(2) == "with time zone":
-                return SqlTimestampType(int(m.group(1)), True)
-            else:
-                return SqlTimestampType(int(m.group(1)), False)
+            with_time_zone = (m.group(2) or "").lower() == "with time zone"
+            return SqlTimestampType(int(m.group(1)), with_time_zone)
 
         m = re.fullmatch(r"^char(?:acter)?[(](\d+)[)]$", type_def, re.IGNORECASE)
         if m is not None:
-- 
2.43.0


From c1ad1a4ce0e177a8e841c04883b487c3ef329761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 26/58] fix: the precision and the time zone in the definition
 of a time type are recognized

---
 pysqlsync/formation/data_types.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index 6a1b14e..7d2a075 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -118,6 +118,13 @@ class SqlDiscovery:
             with_time_zone = (m.group(2) or "").lower() == "with time zone"
             return SqlTimestampType(int(m.group(1)), with_time_zone)
 
+        m = re.fullmatch(
+            r"^time[(](\d+)[)]\s*(with(?:out)? time zone)?$", type_def, re.IGNORECASE
+        )
+        if m is not None:
+            with_time_zone = (m.group(2) or "").lower() == "with time zone"
+            return SqlTimeType(int(m.group(1)), with_time_zone)
+
         m = re.fullmatch(r"^char(?:acter)?[(](\d+)[)]$", type_def, re.IGNORECASE)
         if m is not None:
             return SqlFixedCharacterType(int(m.group(1)))
-- 
2.43.0


From 93000ae573958149f1d5e0defd786bc14e9ff28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 27/58] fix: PostgreSQL types with time zone and intervals are
 recognized by name

---
 pysqlsync/formation/data_types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index 7d2a075..c3dc5aa 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -14,6 +14,7 @@ from ..model.data_types import (
     SqlFixedCharacterType,
     SqlFloatType,
     SqlIntegerType,
+    SqlIntervalType,
     SqlJsonType,
     SqlRealType,
     SqlTimestampType,
@@ -74,7 +75,7 @@ class SqlDiscovery:
             return SqlFloatType()
         elif name in ["timestamp", "timestamp without time zone"]:
             return SqlTimestampType(None, False)
-        elif name == "timestamp with time zone":
+        elif name in ["timestamp with time zone", "timestamptz"]:
             return SqlTimestampType(None, True)
         elif name == "datetime":
             return SqlTimestampType()
@@ -82,8 +83,10 @@ class SqlDiscovery:
             return SqlDateType()
         elif name in ["time", "time without time zone"]:
             return SqlTimeType(None, False)
-        elif name == "time with time zone":
+        elif name in ["time with time zone", "timetz"]:
             return SqlTimeType(None, True)
+        elif name == "interval":
+            return SqlIntervalType()
         elif name in ["char", "character"]:
             return SqlFixedCharacterType()
         elif name in ["varchar", "character varying", "text"]:
-- 
2.43.0


From 2b04387d8a7ea0946180a152c776acf2c25a1568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 28/58] fix: arrays in PostgreSQL keep the attributes of their
 elements, in tables and in structure types

---
 pysqlsync/dialect/postgresql/discovery.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 17a7481..8548ed1 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -59,6 +59,7 @@ class PostgreSQLMemberMeta:
     type_schema: str
     type_name: str
     type_def: str
+    is_array: bool
     description: str
 
 
@@ -96,6 +97,12 @@ class PostgreSQLEnumMeta:
     enum_value: str
 
 
+def _element_type_def(type_def: str) -> str:
+    "Definition of the type of the elements of an array type; any other type definition is left intact."
+
+    return type_def.removesuffix("[]")
+
+
 class PostgreSQLExplorer(Explorer):
     discovery: SqlDiscovery
     factory: PostgreSQLObjectFactory
@@ -195,6 +202,7 @@ class PostgreSQLExplorer(Explorer):
             "    typ.typname AS type_name,\n"
             "    CASE WHEN typ.typelem != 0 THEN typ_elem.typname ELSE typ.typname END AS type_name,\n"
             "    pg_catalog.format_type(att.atttypid, att.atttypmod) AS type_def,\n"
+            "    att.attndims != 0 AS is_array,\n"
             "    dsc.description AS description\n"
             "FROM pg_catalog.pg_attribute AS att\n"
             "    INNER JOIN pg_catalog.pg_type AS typ ON att.atttypid = typ.oid\n"
@@ -212,8 +220,10 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=mem.type_name,
                 type_schema=mem.type_schema,
-                type_def=mem.type_def,
+                type_def=_element_type_def(mem.type_def),
             )
+            if mem.is_array:
+                data_type = SqlArrayType(data_type)
             members.append(
                 StructMember(
                     LocalId(mem.member_name),
@@ -268,7 +278,7 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=col.type_name,
                 type_schema=col.type_schema,
-                type_def=col.type_def,
+                type_def=_element_type_def(col.type_def),
             )
             if col.is_array:
                 data_type = SqlArrayType(data_type)
-- 
2.43.0


From 0d4a5eae6d3a506f602201cfa198a64cf02b861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 29/58] fix: Oracle numbers with a precision, and timestamps
 with a precision or a time zone, are recognized

---
 pysqlsync/dialect/oracle/discovery.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 3a7b8a4..44aa272 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -7,7 +7,12 @@ from pysqlsync.base import BaseContext, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.object_types import Column, Constraint, Namespace, Table
-from pysqlsync.model.data_types import escape_like, quote
+from pysqlsync.model.data_types import (
+    SqlDataType,
+    SqlDecimalType,
+    escape_like,
+    quote,
+)
 from pysqlsync.model.id_types import (
     LocalId,
     PrefixedId,
@@ -140,7 +145,7 @@ class OracleExplorer(Explorer):
             else:
                 data_type = col.data_type
 
-            data_type = self.discovery.sql_data_type_from_spec(
+            sql_type: SqlDataType = self.discovery.sql_data_type_from_spec(
                 type_name=data_type,
                 type_schema=col.data_type_owner,
                 type_def=col.data_type,
@@ -148,12 +153,20 @@ class OracleExplorer(Explorer):
                 numeric_precision=col.data_precision,
                 numeric_scale=col.data_scale,
             )
+            if col.data_type == "NUMBER" and col.data_precision is not None:
+                sql_type = SqlDecimalType(col.data_precision, col.data_scale)
+            elif isinstance(sql_type, OracleTimestampType):
+                m = re.match(r"^TIMESTAMP[(](\d+)[)]( WITH TIME ZONE)?", col.data_type)
+                if m is not None:
+                    precision = int(m.group(1))
+                    sql_type.precision = precision if precision != 6 else None
+                    sql_type.with_time_zone = m.group(2) is not None
             nullable = bool(col.is_nullable)
             identity = bool(col.is_identity)
             columns.append(
                 self.factory.column_class(
                     LocalId(col.column_name),
-                    data_type,
+                    sql_type,
                     nullable,
                     identity=identity,
                     default=col.data_default if not identity else None,
-- 
2.43.0


From 17715b7fe3674e146b06a101e4b3d1a21223288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 30/58] fix: the common type of integer types can hold unsigned
 values and keeps a common range

---
 pysqlsync/model/data_types.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index c71aef6..c948d6e 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -1,3 +1,4 @@
+import copy
 import datetime
 import decimal
 from dataclasses import dataclass
@@ -359,6 +360,31 @@ def max_or_none(left: Optional[int], right: Optional[int]) -> Optional[int]:
         return max(left, right)
 
 
+def _compatible_integer_type(
+    left: SqlIntegerType, right: SqlIntegerType
+) -> SqlIntegerType:
+    "Returns an integer type whose range includes the range of both source types."
+
+    signed = left.signed or right.signed
+    width = max(
+        2 * data_type.width if signed and not data_type.signed else data_type.width
+        for data_type in (left, right)
+    )
+    if width > 8:
+        raise CompatibilityError()
+
+    # database-specific data types may not take constructor parameters
+    data_type = copy.copy(left)
+    data_type.width = width
+    data_type.signed = signed
+    if left.minimum is None or right.minimum is None:
+        data_type.minimum = None
+    else:
+        data_type.minimum = min(left.minimum, right.minimum)
+    data_type.maximum = max_or_none(left.maximum, right.maximum)
+    return data_type
+
+
 def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
     """
     Returns a common type that can represent instances of both source types without data loss.
@@ -372,7 +398,7 @@ def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
 
     # integer types
     if isinstance(left, SqlIntegerType) and isinstance(right, SqlIntegerType):
-        return type(left)(width=max(left.width, right.width))
+        return _compatible_integer_type(left, right)
 
     # floating-point types
     if isinstance(left, SqlRealType):
-- 
2.43.0


From e4f7fabe084d2e282db210c588339308d349bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 31/58] fix: constants for dates, times and enumeration members

---
 pysqlsync/model/data_types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index c948d6e..2badb36 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -1,6 +1,7 @@
 import copy
 import datetime
 import decimal
+import enum
 from dataclasses import dataclass
 from functools import reduce
 from typing import Any, Optional
@@ -41,6 +42,10 @@ def constant(v: Any) -> str:
         else:
             timestamp = v
         return quote(timestamp.isoformat(sep=" "))
+    elif isinstance(v, (datetime.date, datetime.time)):
+        return quote(v.isoformat())
+    elif isinstance(v, enum.Enum):
+        return constant(v.value)
     elif isinstance(v, tuple):
         values = ", ".join(constant(value) for value in v)
         return f"({values})"
-- 
2.43.0


From 81e9f50ce20a84fafb0521b1ea73b25c7b31e749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 32/58] fix: recognize fixed-width types that are equal but not
 identical

---
 pysqlsync/formation/py_to_sql.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ef3a4e0..8236d0f 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -371,40 +371,40 @@ class DataclassConverter:
             return SqlIntegerType(8)
         if typ is float:
             return SqlDoubleType()
-        if typ is int8:
+        if typ == int8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("int1"))
             else:
                 return SqlIntegerType(2)
-        if typ is int16:
+        if typ == int16:
             return SqlIntegerType(2)
-        if typ is int32:
+        if typ == int32:
             return SqlIntegerType(4)
-        if typ is int64:
+        if typ == int64:
             return SqlIntegerType(8)
-        if typ is uint8:
+        if typ == uint8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint1"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint16:
+        if typ == uint16:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint2"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint32:
+        if typ == uint32:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint4"))
             else:
                 return SqlIntegerType(4)
-        if typ is uint64:
+        if typ == uint64:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint8"))
             else:
                 return SqlIntegerType(8)
-        if typ is float32:
+        if typ == float32:
             return SqlRealType()
-        if typ is float64:
+        if typ == float64:
             return SqlDoubleType()
         if typ is str:
             return SqlVariableCharacterType()
-- 
2.43.0


From 2b052032b5f3254ff435c74ffd3ba00d89d39e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 33/58] fix: no literal default for a column that refers to a
 lookup table

---
 pysqlsync/formation/py_to_sql.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 8236d0f..9e2c13f 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -669,7 +669,13 @@ class DataclassConverter:
         props = get_field_properties(field.type)
         data_type = self.member_to_sql_data_type(props.field_type, cls)
 
-        if field.default is not dataclasses.MISSING and field.default is not None:
+        if is_extensible_enum_type(props.plain_type, cls) or (
+            self.options.enum_mode is EnumMode.RELATION
+            and is_type_enum(props.plain_type)
+        ):
+            # key in a lookup table, assigned by the database
+            default_value = None
+        elif field.default is not dataclasses.MISSING and field.default is not None:
             default_value = constant(field.default)
         elif (
             self.options.auto_default
-- 
2.43.0


From 789d179b4310c5cf97c5c7961ce020f173c6bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 34/58] fix: omit the automatic default of types that have none

---
 pysqlsync/formation/py_to_sql.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 9e2c13f..0e284fd 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -708,6 +708,7 @@ class DataclassConverter:
                 plain_type = None
 
             if plain_type is not None:
+                plain_type = unwrap_annotated_type(plain_type)
                 default_expr: Any
                 if plain_type is datetime.datetime:
                     default_expr = datetime.datetime.min
@@ -717,9 +718,14 @@ class DataclassConverter:
                     default_expr = datetime.time.min
                 elif is_type_enum(plain_type):
                     default_expr = next(member.value for member in plain_type)
-                else:
+                elif plain_type in (bool, int, float, str, decimal.Decimal):
                     default_expr = plain_type()  # type: ignore
-                default_value = constant(default_expr)
+                else:
+                    # unable to infer default value for type
+                    default_expr = None
+                default_value = (
+                    constant(default_expr) if default_expr is not None else None
+                )
             else:
                 default_value = None
         else:
-- 
2.43.0


From ddb14e7785b03dbf0aa222299be96898bea3256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 35/58] fix: order types of the same name in different modules

---
 pysqlsync/formation/py_to_sql.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 0e284fd..a60ff00 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1022,7 +1022,7 @@ class DataclassConverter:
         enums: dict[str, list[EnumType]] = {}
         if self.options.enum_mode is EnumMode.TYPE:
             enum_types = [obj for obj in referenced_types if is_type_enum(obj)]
-            enum_types.sort(key=lambda e: e.__name__)
+            enum_types.sort(key=lambda e: (e.__name__, e.__module__))
             for enum_type in enum_types:
                 enum_values = [str(e.value) for e in enum_type]  # type: ignore
                 if len(enum_values) < 2:
@@ -1044,7 +1044,7 @@ class DataclassConverter:
         structs: dict[str, list[StructType]] = {}
         if self.options.struct_mode is StructMode.TYPE:
             struct_types = [obj for obj in referenced_types if is_struct_type(obj)]
-            struct_types.sort(key=lambda s: s.__name__)
+            struct_types.sort(key=lambda s: (s.__name__, s.__module__))
             struct_types = _topological_sort(struct_types)
             for struct_type in struct_types:
                 struct_defs = structs.setdefault(struct_type.__module__, [])
@@ -1053,7 +1053,7 @@ class DataclassConverter:
         # create tables
         tables: dict[str, list[Table]] = {}
         table_types = [obj for obj in referenced_types if is_entity_type(obj)]
-        table_types.sort(key=lambda t: t.__name__)
+        table_types.sort(key=lambda t: (t.__name__, t.__module__))
         for table_type in table_types:
             table_defs = tables.setdefault(table_type.__module__, [])
             table_defs.append(self.dataclass_to_table(table_type))
@@ -1078,7 +1078,9 @@ class DataclassConverter:
                 ):
                     regular_enum_types.add(unwrap_generic_set(enum_field.type))
 
-        for enum_type in sorted(list(regular_enum_types), key=lambda e: e.__name__):
+        for enum_type in sorted(
+            list(regular_enum_types), key=lambda e: (e.__name__, e.__module__)
+        ):
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
 
@@ -1090,7 +1092,9 @@ class DataclassConverter:
             ):
                 enum_type = unwrap_extensible_enum_type(enum_field.type, entity)
                 extensible_enum_types.add(enum_type)
-        for enum_type in sorted(list(extensible_enum_types), key=lambda e: e.__name__):
+        for enum_type in sorted(
+            list(extensible_enum_types), key=lambda e: (e.__name__, e.__module__)
+        ):
             table_defs = tables.setdefault(enum_type.__module__, [])
             table_defs.append(self._enum_table(enum_type))
 
-- 
2.43.0


From dfb9d1ce5b379f67191a1314ab58f9f6d067d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:17 +0000
Subject: [PATCH 36/58] fix: define types of modules that have no tables

---
 pysqlsync/formation/py_to_sql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index a60ff00..a16b44d 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1195,14 +1195,16 @@ class DataclassConverter:
                 )
 
         if self.options.qualified_names:
+            # modules without tables may define types that tables in other modules use
+            type_modules = [m for m in (*enums, *structs) if m not in tables]
             namespaces = [
                 self.options.factory.namespace_class(
                     name=LocalId(self.options.namespaces.get(module_name) or ""),
                     enums=enums.get(module_name, []),
                     structs=structs.get(module_name, []),
-                    tables=table_defs,
+                    tables=tables.get(module_name, []),
                 )
-                for module_name, table_defs in tables.items()
+                for module_name in dict.fromkeys((*type_modules, *tables))
             ]
         else:
             namespaces = [
-- 
2.43.0


From 5798568e4d2925d9c315d6326ac774fb50f511b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 37/58] fix: no automatic literal default for a reference to a
 key in a lookup table

---
 pysqlsync/formation/py_to_sql.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index a16b44d..ad0ebf2 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -716,7 +716,10 @@ class DataclassConverter:
                     default_expr = datetime.date.min
                 elif plain_type is datetime.time:
                     default_expr = datetime.time.min
-                elif is_type_enum(plain_type):
+                elif (
+                    is_type_enum(plain_type)
+                    and self.options.enum_mode is not EnumMode.RELATION
+                ):
                     default_expr = next(member.value for member in plain_type)
                 elif plain_type in (bool, int, float, str, decimal.Decimal):
                     default_expr = plain_type()  # type: ignore
-- 
2.43.0


From 6d0384f3506d572ccea877e63e71f6e36d95956e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 38/58] fix: escape user name, password and database in the
 ODBC connection string of Microsoft SQL Server

---
 pysqlsync/dialect/mssql/connection.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 1639471..2fe101b 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -20,6 +20,14 @@ T = TypeVar("T")
 LOGGER = logging.getLogger("pysqlsync.mssql")
 
 
+def _odbc_value(value: Optional[str]) -> Optional[str]:
+    "Encloses a value in braces such that it may contain any character in an ODBC connection string."
+
+    if value is None:
+        return None
+    return "{" + value.replace("}", "}}") + "}"
+
+
 class MSSQLConnection(BaseConnection):
     """
     Represents a connection to a Microsoft SQL Server.
@@ -39,13 +47,13 @@ class MSSQLConnection(BaseConnection):
                 if self.params.port is not None
                 else self.params.host
             ),
-            "UID": self.params.username,
-            "PWD": self.params.password,
+            "UID": _odbc_value(self.params.username),
+            "PWD": _odbc_value(self.params.password),
             "LongAsMax": "yes",
             "TrustServerCertificate": "yes",
         }
         if self.params.database is not None:
-            params["DATABASE"] = self.params.database
+            params["DATABASE"] = _odbc_value(self.params.database)
         conn_string = ";".join(
             f"{key}={value}" for key, value in params.items() if value is not None
         )
-- 
2.43.0


From 089a98edb841f43c98c4fcfb1e118634cb1b889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 39/58] fix: apply the TLS mode of the connection parameters to
 Amazon Redshift

---
 pysqlsync/dialect/redshift/connection.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index bce30b9..3e8d869 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -16,6 +16,7 @@ from pysqlsync.base import (
     QueryException,
     RecordType,
 )
+from pysqlsync.connection import ConnectionSSLMode
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
@@ -38,8 +39,20 @@ class RedshiftConnection(BaseConnection):
     @thread_dispatch
     def open(self) -> BaseContext:
         LOGGER.info("connecting to %s", self.params)
+
+        # Amazon Redshift requires TLS with IAM; the driver refuses to connect if TLS is disabled. If no mode is passed,
+        # the driver verifies the certificate but ignores a host name that does not match.
+        ssl_mode = self.params.ssl
+        sslmode: Optional[str] = None
+        if ssl_mode is ConnectionSSLMode.verify_full:
+            sslmode = "verify-full"
+        elif ssl_mode is not None and ssl_mode is not ConnectionSSLMode.disable:
+            sslmode = "verify-ca"
+
         conn = redshift_connector.connect(
             iam=True,
+            ssl=ssl_mode is not ConnectionSSLMode.disable,
+            sslmode=sslmode,
             host=self.params.host,
             port=self.params.port,
             database=self.params.database,
-- 
2.43.0


From b65e131b626025294db025959fa6a2f6146c7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:40 +0000
Subject: [PATCH 40/58] fix: do not use TLS with Trino if the connection
 parameters disable it

---
 pysqlsync/dialect/trino/connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/trino/connection.py b/pysqlsync/dialect/trino/connection.py
index 78ecb0d..c6e5649 100644
--- a/pysqlsync/dialect/trino/connection.py
+++ b/pysqlsync/dialect/trino/connection.py
@@ -5,6 +5,7 @@ import aiotrino
 from strong_typing.inspection import is_dataclass_type
 
 from pysqlsync.base import BaseConnection, BaseContext, DataSource
+from pysqlsync.connection import ConnectionSSLMode
 from pysqlsync.formation.object_types import Table
 from pysqlsync.resultset import resultset_unwrap_tuple
 from pysqlsync.util.typing import override
@@ -24,7 +25,9 @@ class TrinoConnection(BaseConnection):
             auth=aiotrino.auth.BasicAuthentication(
                 self.params.username, self.params.password
             ),
-            http_scheme="https",
+            http_scheme=(
+                "http" if self.params.ssl is ConnectionSSLMode.disable else "https"
+            ),
             catalog=self.params.database,
         )
         return TrinoContext(self)
-- 
2.43.0


From 116ffaa79d5bff90e55b33cf98ec4735637e6522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:48 +0000
Subject: [PATCH 41/58] fix: use varchar(max) for strings longer than what
 Microsoft SQL Server permits

---
 pysqlsync/dialect/mssql/data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index ee259e2..8785ed4 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -43,10 +43,12 @@ class MSSQLVariableCharacterType(SqlVariableCharacterType):
     def __str__(self) -> str:
         if self.encoding is MSSQLEncoding.UTF16:
             chartype = "nvarchar"
+            max_limit = 4000
         else:
             chartype = "varchar"
+            max_limit = 8000
 
-        if self.limit is not None and self.limit > 0 and self.limit != 2147483647:
+        if self.limit is not None and 0 < self.limit <= max_limit:
             return f"{chartype}({self.limit})"
         else:
             return f"{chartype}(max)"
-- 
2.43.0


From c62ca9a08c4267c13889c52fc14a0c07d0d435f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:22 +0000
Subject: [PATCH 42/58] fix: a type of a user named like a built-in type is
 discovered as such

---
 pysqlsync/formation/data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index c3dc5aa..71fd36a 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -54,6 +54,9 @@ class SqlDiscovery:
         type_name: str,
         type_schema: Optional[str] = None,
     ) -> Optional[SqlDataType]:
+        if type_schema is not None and type_schema not in ["pg_catalog", "SYS"]:
+            return SqlUserDefinedType(QualifiedId(type_schema, type_name))
+
         name = type_name.lower()
         if name in ["bool", "boolean"]:
             return SqlBooleanType()
-- 
2.43.0


From c4d7e1ceac5abd1eb48c730313ad9d95fcb52c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:29 +0000
Subject: [PATCH 43/58] fix: PostgreSQL objects in the default schema are
 discovered without a schema name

---
 pysqlsync/dialect/postgresql/discovery.py | 99 ++++++++++++++++-------
 1 file changed, 68 insertions(+), 31 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 8548ed1..b8fcc61 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -2,7 +2,7 @@ import datetime
 import re
 from dataclasses import dataclass
 from itertools import groupby
-from typing import Optional
+from typing import Optional, Union
 
 from pysqlsync.base import BaseContext, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
@@ -16,7 +16,12 @@ from pysqlsync.formation.object_types import (
     StructType,
     Table,
 )
-from pysqlsync.model.data_types import SqlArrayType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlUserDefinedType,
+    quote,
+)
 from pysqlsync.model.id_types import GlobalId, LocalId, QualifiedId, SupportsQualifiedId
 
 from .data_types import PostgreSQLJsonType
@@ -128,12 +133,18 @@ class PostgreSQLExplorer(Explorer):
         )
         return [QualifiedId(row[0], row[1]) for row in rows]  # type: ignore
 
+    @classmethod
+    def _where_namespace(cls, object_id: SupportsQualifiedId) -> str:
+        if object_id.scope_id is not None:
+            return f"nsp.nspname = {quote(object_id.scope_id)}"
+        else:
+            return "nsp.nspname = current_schema()"
+
     @classmethod
     def _where_relation(cls, relation_id: SupportsQualifiedId, kinds: list[str]) -> str:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(relation_id.local_id)}")
-        if relation_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(relation_id.scope_id)}")
+        conditions.append(cls._where_namespace(relation_id))
         conditions.append(
             " OR ".join(f"(cls.relkind = {quote(kind)})" for kind in kinds)
         )
@@ -161,8 +172,7 @@ class PostgreSQLExplorer(Explorer):
     ) -> bool:
         conditions: list[str] = []
         conditions.append(f"cls.relname = {quote(table_id.local_id)}")
-        if table_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(table_id.scope_id)}")
+        conditions.append(self._where_namespace(table_id))
         conditions.append("cls.relkind = 'r' OR cls.relkind = 'v'")
         conditions.append(f"att.attname = {quote(column_id.local_id)}")
         condition = " AND ".join(f"({c})" for c in conditions)
@@ -177,11 +187,41 @@ class PostgreSQLExplorer(Explorer):
         )
         return len(rows) > 0 and rows[0] > 0
 
+    async def _unqualified_schema(
+        self, object_id: SupportsQualifiedId
+    ) -> Optional[str]:
+        "The schema whose objects an object without a namespace refers to without a namespace."
+
+        if object_id.scope_id is None:
+            return await self.conn.current_schema()
+        else:
+            return None
+
+    def _get_data_type(
+        self,
+        meta: Union[PostgreSQLColumnMeta, PostgreSQLMemberMeta],
+        current_schema: Optional[str],
+    ) -> SqlDataType:
+        data_type = self.discovery.sql_data_type_from_spec(
+            type_name=meta.type_name,
+            type_schema=meta.type_schema,
+            type_def=_element_type_def(meta.type_def),
+        )
+        if (
+            isinstance(data_type, SqlUserDefinedType)
+            and meta.type_schema == current_schema
+        ):
+            data_type = SqlUserDefinedType(QualifiedId(None, meta.type_name))
+        if meta.is_array:
+            data_type = SqlArrayType(data_type)
+        return data_type
+
     async def get_struct(self, struct_id: SupportsQualifiedId) -> StructType:
+        current_schema = await self._unqualified_schema(struct_id)
+
         conditions: list[str] = []
         conditions.append(f"typ.typname = {quote(struct_id.local_id)}")
-        if struct_id.scope_id is not None:
-            conditions.append(f"nsp.nspname = {quote(struct_id.scope_id)}")
+        conditions.append(self._where_namespace(struct_id))
         condition = " AND ".join(f"({c})" for c in conditions)
 
         struct_record = await self.conn.query_one(
@@ -217,13 +257,7 @@ class PostgreSQLExplorer(Explorer):
 
         members: list[StructMember] = []
         for mem in member_records:
-            data_type = self.discovery.sql_data_type_from_spec(
-                type_name=mem.type_name,
-                type_schema=mem.type_schema,
-                type_def=_element_type_def(mem.type_def),
-            )
-            if mem.is_array:
-                data_type = SqlArrayType(data_type)
+            data_type = self._get_data_type(mem, current_schema)
             members.append(
                 StructMember(
                     LocalId(mem.member_name),
@@ -239,6 +273,8 @@ class PostgreSQLExplorer(Explorer):
         )
 
     async def get_table(self, table_id: SupportsQualifiedId) -> Table:
+        current_schema = await self._unqualified_schema(table_id)
+
         table_record = await self.conn.query_one(
             PostgreSQLTableMeta,
             "SELECT\n"
@@ -275,13 +311,7 @@ class PostgreSQLExplorer(Explorer):
 
         columns: list[Column] = []
         for col in column_records:
-            data_type = self.discovery.sql_data_type_from_spec(
-                type_name=col.type_name,
-                type_schema=col.type_schema,
-                type_def=_element_type_def(col.type_def),
-            )
-            if col.is_array:
-                data_type = SqlArrayType(data_type)
+            data_type = self._get_data_type(col, current_schema)
             columns.append(
                 self.factory.column_class(
                     LocalId(col.column_name),
@@ -331,10 +361,14 @@ class PostgreSQLExplorer(Explorer):
             elif con.constraint_type == b"u":
                 unique.add(con.constraint_name, LocalId(con.source_column))
             elif con.constraint_type == b"f":
+                if con.target_namespace == current_schema:
+                    target_table = QualifiedId(None, con.target_table)
+                else:
+                    target_table = QualifiedId(con.target_namespace, con.target_table)
                 foreign.add(
                     con.constraint_name,
                     LocalId(con.source_column),
-                    QualifiedId(con.target_namespace, con.target_table),
+                    target_table,
                     LocalId(con.target_column),
                 )
 
@@ -354,9 +388,12 @@ class PostgreSQLExplorer(Explorer):
         schema = await self.conn.current_schema()
         if schema is None:
             raise RuntimeError("unable to fetch current schema")
-        return await self.get_namespace(LocalId(schema))
+        return await self._get_namespace(schema, None)
 
     async def get_namespace(self, namespace_id: LocalId) -> Namespace:
+        return await self._get_namespace(namespace_id.id, namespace_id.id)
+
+    async def _get_namespace(self, schema: str, scope_id: Optional[str]) -> Namespace:
         enum_records = await self.conn.query_all(
             PostgreSQLEnumMeta,
             "SELECT\n"
@@ -365,7 +402,7 @@ class PostgreSQLExplorer(Explorer):
             "FROM pg_catalog.pg_type t\n"
             "    JOIN pg_catalog.pg_enum e ON t.oid = e.enumtypid\n"
             "    JOIN pg_catalog.pg_namespace n ON n.oid = t.typnamespace\n"
-            f"WHERE n.nspname = {quote(namespace_id.id)}\n"
+            f"WHERE n.nspname = {quote(schema)}\n"
             "ORDER BY enum_name, e.enumsortorder\n"
             ";",
         )
@@ -374,7 +411,7 @@ class PostgreSQLExplorer(Explorer):
         for enum_name, enum_groups in groupby(enum_records, key=lambda e: e.enum_name):
             enums.append(
                 EnumType(
-                    QualifiedId(namespace_id.id, enum_name),
+                    QualifiedId(scope_id, enum_name),
                     [e.enum_value for e in enum_groups],
                 )
             )
@@ -383,31 +420,31 @@ class PostgreSQLExplorer(Explorer):
             str,
             "SELECT cls.relname\n"
             "FROM pg_catalog.pg_class AS cls INNER JOIN pg_catalog.pg_namespace AS nsp ON cls.relnamespace = nsp.oid\n"
-            f"WHERE nsp.nspname = {quote(namespace_id.id)} AND (cls.relkind = 'c')\n"
+            f"WHERE nsp.nspname = {quote(schema)} AND (cls.relkind = 'c')\n"
             ";",
         )
 
         structs: list[StructType] = []
         for struct_name in struct_names:
-            struct = await self.get_struct(QualifiedId(namespace_id.id, struct_name))
+            struct = await self.get_struct(QualifiedId(scope_id, struct_name))
             structs.append(struct)
 
         table_names = await self.conn.query_all(
             str,
             "SELECT cls.relname\n"
             "FROM pg_catalog.pg_class AS cls INNER JOIN pg_catalog.pg_namespace AS nsp ON cls.relnamespace = nsp.oid\n"
-            f"WHERE nsp.nspname = {quote(namespace_id.id)} AND (cls.relkind = 'r' OR cls.relkind = 'v')\n"
+            f"WHERE nsp.nspname = {quote(schema)} AND (cls.relkind = 'r' OR cls.relkind = 'v')\n"
             ";",
         )
 
         tables: list[Table] = []
         for table_name in table_names:
-            table = await self.get_table(QualifiedId(namespace_id.id, table_name))
+            table = await self.get_table(QualifiedId(scope_id, table_name))
             tables.append(table)
 
         if enums or structs or tables:
             return self.factory.namespace_class(
-                namespace_id, enums=enums, structs=structs, tables=tables
+                LocalId(scope_id or ""), enums=enums, structs=structs, tables=tables
             )
         else:
             return self.factory.namespace_class()
-- 
2.43.0


From 7d1ddc2f7356beedc1b606cd96ac51625cb52217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:46 +0000
Subject: [PATCH 44/58] fix: mark the primary key column of a class derived
 from a table

---
 pysqlsync/formation/sql_to_py.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 3e80ad7..052333d 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -141,7 +141,7 @@ class SqlConverter:
             default = column.default
 
         field_type = sql_type_to_python(column.data_type)
-        if column.name == table.primary_key:
+        if table.primary_key == (column.name,):
             field_type = PrimaryKey[(field_type,)]  # type: ignore
         elif column.nullable:
             field_type = Optional[field_type]
-- 
2.43.0


From 70908eebd9c8950427b111771a0325e53c69e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:19 +0000
Subject: [PATCH 45/58] fix: keep descriptions of columns in a class derived
 from a table

---
 pysqlsync/formation/sql_to_py.py | 10 +++++++++-
 pysqlsync/python_types.py        |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 052333d..4cbcc8b 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -159,10 +159,18 @@ class SqlConverter:
                 union_types = tuple(self.qual_to_module(r.table) for r in c.references)
                 field_type = Union[union_types]
 
+        metadata: dict[str, Any] = {}
+        if column.description is not None:
+            metadata["description"] = column.description
+
         # use cast to ensure compatibility with signature of `make_dataclass`
         data_type = typing.cast(type, field_type)
 
-        return (field_name, data_type, dataclasses.field(default=default))
+        return (
+            field_name,
+            data_type,
+            dataclasses.field(default=default, metadata=metadata),
+        )
 
     def table_to_dataclass(self, table: Table) -> type[DataclassInstance]:
         """
diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index ccb9c5e..7462a73 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -125,7 +125,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
             initializer_list = ", ".join(
                 f"{key} = {value}" for key, value in field_initializer.items()
             )
-            initializer = f" = field({initializer_list})"
+            initializer = f" = dataclasses.field({initializer_list})"
 
         print(f"    {field.name}: {type_name}{initializer}", file=target)
 
-- 
2.43.0


From eb1c7c992e01891eeb89c0e5ebb60c1fc4a0bbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:37 +0000
Subject: [PATCH 46/58] fix: keep precision and scale of decimals in a class
 derived from a table

---
 pysqlsync/formation/sql_to_py.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 4cbcc8b..14e0ccd 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -73,6 +73,10 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
             return Annotated[float, Precision(sql_type.precision)]
         return float
     elif isinstance(sql_type, SqlDecimalType):
+        if sql_type.precision is not None:
+            return Annotated[
+                decimal.Decimal, Precision(sql_type.precision, sql_type.scale or 0)
+            ]
         return decimal.Decimal
     elif isinstance(sql_type, SqlTimestampType):
         if sql_type.precision is not None:
-- 
2.43.0


From fdd737c1590f519523ac21ae50165d515aa12648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:27 +0000
Subject: [PATCH 47/58] fix: refer to a derived class of the same module by its
 simple name

---
 pysqlsync/formation/sql_to_py.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 14e0ccd..cc93916 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -126,8 +126,12 @@ class SqlConverter:
     def __init__(self, options: SqlConverterOptions) -> None:
         self.options = options
 
-    def qual_to_module(self, id: SupportsQualifiedId) -> str:
-        return f"{self.options.namespaces[id.scope_id].__name__}.{safe_id(id.local_id)}"
+    def qual_to_module(self, id: SupportsQualifiedId, table: Table) -> str:
+        module = self.options.namespaces[id.scope_id]
+        if module is self.options.namespaces[table.name.scope_id]:
+            # a class in the same module is referenced by its simple name
+            return safe_id(id.local_id)
+        return f"{module.__name__}.{safe_id(id.local_id)}"
 
     def column_to_field(
         self, table: Table, column: Column
@@ -158,9 +162,11 @@ class SqlConverter:
                 continue
 
             if isinstance(c, ForeignConstraint):
-                field_type = self.qual_to_module(c.reference.table)
+                field_type = self.qual_to_module(c.reference.table, table)
             elif isinstance(c, DiscriminatedConstraint):
-                union_types = tuple(self.qual_to_module(r.table) for r in c.references)
+                union_types = tuple(
+                    self.qual_to_module(r.table, table) for r in c.references
+                )
                 field_type = Union[union_types]
 
         metadata: dict[str, Any] = {}
-- 
2.43.0


From af7556aaf2b71c52de8cf39e33f4d98705c43ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:43 +0000
Subject: [PATCH 48/58] fix: a nullable reference remains nullable in a class
 derived from a table

---
 pysqlsync/formation/sql_to_py.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index cc93916..f97f99b 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -151,8 +151,6 @@ class SqlConverter:
         field_type = sql_type_to_python(column.data_type)
         if table.primary_key == (column.name,):
             field_type = PrimaryKey[(field_type,)]  # type: ignore
-        elif column.nullable:
-            field_type = Optional[field_type]
 
         for c in table.constraints.values():
             if not isinstance(c, ReferenceConstraint):
@@ -169,6 +167,9 @@ class SqlConverter:
                 )
                 field_type = Union[union_types]
 
+        if column.nullable and table.primary_key != (column.name,):
+            field_type = Optional[field_type]
+
         metadata: dict[str, Any] = {}
         if column.description is not None:
             metadata["description"] = column.description
-- 
2.43.0


From fd9de98965749a0923afb58d7e9e879ea95f2f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:50 +0000
Subject: [PATCH 49/58] fix: generated modules define the annotations of their
 fields

---
 pysqlsync/python_types.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index 7462a73..370f3d1 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -33,9 +33,19 @@ def module_to_stream(module: ModuleType, target: TextIO) -> None:
         file=target,
     )
     print(
-        "from strong_typing.auxiliary import int16, int32, int64, float32, float64, MaxLength, Precision, TimePrecision",
+        "from strong_typing.auxiliary import int16, int32, int64, float32, float64, Length, MaxLength, Precision, TimePrecision",
         file=target,
     )
+    print(
+        "from pysqlsync.model.key_types import IdentityTag, PrimaryKeyTag, UniqueTag",
+        file=target,
+    )
+    print(file=target)
+
+    # annotations are written as the tags that they are made of
+    print("Identity = IdentityTag()", file=target)
+    print("PrimaryKey = PrimaryKeyTag()", file=target)
+    print("Unique = UniqueTag()", file=target)
     print(file=target)
 
     for cls in get_module_classes(module):
-- 
2.43.0


From a6b20c03d81827a4f9aaad6cf942fd5b7494a6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 50/58] fix: drop objects of a namespace before the objects to
 which they refer in other namespaces

---
 pysqlsync/formation/mutation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index b993775..b582815 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -344,7 +344,9 @@ class Mutator:
         target.sort()
 
         ns_create = list(target.namespaces.difference(source.namespaces))
+        # objects of a namespace are dropped before the objects to which they refer in other namespaces
         ns_drop = list(source.namespaces.difference(target.namespaces))
+        ns_drop.reverse()
         ns_mutate = list(source.namespaces.intersection(target.namespaces))
 
         # create new namespaces
-- 
2.43.0


From 4be2510abbed95dc6368f72937134df3f44eed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:06 +0000
Subject: [PATCH 51/58] fix: Delta has no type text for JSON data

---
 pysqlsync/dialect/delta/generator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/delta/generator.py b/pysqlsync/dialect/delta/generator.py
index 98374a7..476fbef 100644
--- a/pysqlsync/dialect/delta/generator.py
+++ b/pysqlsync/dialect/delta/generator.py
@@ -15,7 +15,6 @@ from pysqlsync.formation.py_to_sql import (
     NamespaceMapping,
     StructMode,
 )
-from pysqlsync.model.data_types import SqlVariableCharacterType
 from pysqlsync.util.typing import override
 
 from .data_types import (
@@ -59,7 +58,7 @@ class DeltaGenerator(BaseGenerator):
                     float64: DeltaDoubleType(),
                     str: DeltaVariableCharacterType(),
                     uuid.UUID: DeltaFixedBinaryType(16),
-                    JsonType: SqlVariableCharacterType(),
+                    JsonType: DeltaVariableCharacterType(),
                     ipaddress.IPv4Address: DeltaFixedBinaryType(4),
                     ipaddress.IPv6Address: DeltaFixedBinaryType(16),
                 },
-- 
2.43.0


From 6b667438f37590a22f0a9fa79d5ec1e205c91870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:35 +0000
Subject: [PATCH 52/58] fix: drop foreign keys between dropped tables before
 the tables

---
 pysqlsync/formation/mutation.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index b582815..adf4e35 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -14,6 +14,7 @@ from .object_types import (
     Column,
     ColumnFormationError,
     EnumType,
+    ForeignConstraint,
     FormationError,
     Namespace,
     StatementList,
@@ -322,6 +323,19 @@ class Mutator:
 
         # drop old objects
         if self.options.allow_drop_table:
+            # a dropped table may be referenced by a table that is dropped after it
+            table_ids = set(table.name for table in table_drop)
+            for table in table_drop:
+                references = [
+                    f"DROP CONSTRAINT {constraint.name}"
+                    for constraint in table.constraints.values()
+                    if isinstance(constraint, ForeignConstraint)
+                    and constraint.reference.table != table.name
+                    and constraint.reference.table in table_ids
+                ]
+                if references:
+                    statements.append(table.alter_table_stmt(references))
+
             statements.extend(table.drop_stmt() for table in table_drop)
 
         if self.options.allow_drop_struct:
-- 
2.43.0


From e118eccb355eb78b888e91b2ccc9d67da848f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:58 +0000
Subject: [PATCH 53/58] fix: drop composite types before the types that they
 use

---
 pysqlsync/formation/mutation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index adf4e35..562d180 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -339,7 +339,8 @@ class Mutator:
             statements.extend(table.drop_stmt() for table in table_drop)
 
         if self.options.allow_drop_struct:
-            statements.extend(struct.drop_stmt() for struct in struct_drop)
+            # types are dropped before the types that they use as members
+            statements.extend(struct.drop_stmt() for struct in reversed(struct_drop))
 
         if self.options.allow_drop_enum:
             for enum_type in enum_drop:
-- 
2.43.0


From 022fedbf7c045d10be2d50289fd378c3f104d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:18 +0000
Subject: [PATCH 54/58] fix: escape descriptions in the doc-strings of
 generated classes

---
 pysqlsync/python_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index 370f3d1..841da1d 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -196,6 +196,9 @@ def _wrap_print(text: str, file: TextIO) -> None:
     if not text:
         return
 
+    # text is written between triple quotes
+    text = text.replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
+
     # wrap long lines
     for line in textwrap.wrap(
         text,
-- 
2.43.0


From 1da3e41f8cc46fff543a84b22bfb0156809a6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:07:48 +0000
Subject: [PATCH 55/58] fix: recognize constraint tags inside optional and
 nested types

---
 pysqlsync/model/properties.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/model/properties.py b/pysqlsync/model/properties.py
index e1e31d3..b5fdbcc 100644
--- a/pysqlsync/model/properties.py
+++ b/pysqlsync/model/properties.py
@@ -11,7 +11,6 @@ from strong_typing.inspection import (
     DataclassInstance,
     TypeLike,
     dataclass_fields,
-    get_annotation,
     is_dataclass_type,
     is_type_enum,
     is_type_literal,
@@ -29,19 +28,19 @@ from .key_types import DefaultTag, IdentityTag, PrimaryKeyTag, UniqueTag
 def is_primary_key_type(field_type: TypeLike) -> bool:
     "Checks if the field type is marked as the primary key of a table."
 
-    return get_annotation(field_type, PrimaryKeyTag) is not None
+    return get_field_properties(field_type).is_primary
 
 
 def is_identity_type(field_type: TypeLike) -> bool:
     "Checks if the field type is marked as an identity column in a table."
 
-    return get_annotation(field_type, IdentityTag) is not None
+    return get_field_properties(field_type).is_identity
 
 
 def is_unique_type(field_type: TypeLike) -> bool:
     "Checks if the field type is marked as a unique column in a table."
 
-    return get_annotation(field_type, UniqueTag) is not None
+    return get_field_properties(field_type).is_unique
 
 
 def get_primary_key_name(class_type: type[DataclassInstance]) -> str:
-- 
2.43.0


From d33d94a4c21b8834799f3a396e0ac6ab83864f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:59 +0000
Subject: [PATCH 56/58] fix: pair the columns of composite foreign keys in
 Oracle

---
 pysqlsync/dialect/oracle/discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/oracle/discovery.py b/pysqlsync/dialect/oracle/discovery.py
index 44aa272..8ff80fd 100644
--- a/pysqlsync/dialect/oracle/discovery.py
+++ b/pysqlsync/dialect/oracle/discovery.py
@@ -185,7 +185,7 @@ class OracleExplorer(Explorer):
             "FROM dba_constraints t\n"
             "    JOIN dba_cons_columns tc ON t.owner = tc.owner AND t.constraint_name = tc.constraint_name\n"
             "    LEFT JOIN dba_constraints r ON t.r_owner = r.owner AND t.r_constraint_name = r.constraint_name\n"
-            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name\n"
+            "    LEFT JOIN dba_cons_columns rc ON r.owner = rc.owner AND r.constraint_name = rc.constraint_name AND tc.position = rc.position\n"
             f"WHERE {condition}\n"
             "ORDER BY tc.position",
         )
-- 
2.43.0


From c5537642f2eeaa482fb7718748d1d16dd3d7d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:20 +0000
Subject: [PATCH 57/58] fix: update the comments of members of composite types

---
 pysqlsync/dialect/postgresql/mutation.py | 16 ++++++++++++++++
 pysqlsync/formation/mutation.py          |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 274c872..30f5292 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -90,6 +90,22 @@ class PostgreSQLMutator(Mutator):
         statements: StatementList = StatementList()
         statements.append(super().mutate_struct_stmt(source, target))
 
+        for target_member in target.members.values():
+            source_member = source.members.get(target_member.name.id)
+            source_desc = source_member.description if source_member else None
+            target_desc = target_member.description
+
+            if target_desc is None:
+                if source_desc is not None:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS NULL;"
+                    )
+            else:
+                if source_desc != target_desc:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS {sql_quoted_string(target_desc)};"
+                    )
+
         if target.description is None:
             if source.description is not None:
                 statements.append(f"COMMENT ON TYPE {target.name} IS NULL;")
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 562d180..0317f5e 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -89,7 +89,7 @@ class Mutator:
             for member in source.members.difference(target.members)
         )
         for source_member, target_member in source.members.intersection(target.members):
-            if source_member != target_member:
+            if source_member.data_type != target_member.data_type:
                 statements.append(
                     f"ALTER ATTRIBUTE {source_member.name} SET DATA TYPE {target_member.data_type}"
                 )
-- 
2.43.0


From 2ae0d8fc13beec25e4317a3290a9599b150d4a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:46 +0000
Subject: [PATCH 58/58] fix: drop constraints before the columns that they
 depend on

---
 pysqlsync/formation/mutation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 0317f5e..06655b0 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -201,6 +201,13 @@ class Mutator:
         # accumulate object mutation statements
         alter_stmts: list[Optional[str]] = []
 
+        # remove deleted constraints (before the columns that they depend on)
+        alter_stmts.extend(
+            f"DROP CONSTRAINT {constraint.name}"
+            for constraint in source.constraints.difference(target.constraints)
+            if constraint.is_alter_table()
+        )
+
         # migrate data when data type changes
         try:
             for source_column, target_column in migrated_columns:
@@ -234,12 +241,6 @@ class Mutator:
                 "failed to drop columns in table", target.name
             ) from e
 
-        alter_stmts.extend(
-            f"DROP CONSTRAINT {constraint.name}"
-            for constraint in source.constraints.difference(target.constraints)
-            if constraint.is_alter_table()
-        )
-
         # remove outdated constraints
         common_constraints = source.constraints.intersection(target.constraints)
         for source_constraint, target_constraint in common_constraints:
-- 
2.43.0

