"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewable in one place)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {})}})

prop("P01", "Identifiers survive quoting unchanged and cannot alter the statement",
 "For every table, schema, column or constraint name, whatever characters it contains, the text the library puts into a SQL statement for it is exactly one delimited identifier per name part (schema and table separated by a single dot outside the delimiters; for databases without schemas, the two merged as schema__table) that the database reads back as the original name. Consequently distinct local or schema-qualified names never produce the same text, renaming an object changes only its local part, and no name can end its own quotation.",
 ["inputs"], "all names: every finite string of Unicode characters, with and without a schema, for every identifier kind and for the MySQL backtick form",
 "Tests use a handful of alphanumeric names; the claim is over every character sequence (embedded, leading, trailing, doubled quote characters).",
 ["pysqlsync/model/id_types.py", "pysqlsync/dialect/mysql/connection.py"],
 [("quote_id doubles the delimiter", "pysqlsync/model/id_types.py quote_id, LocalId/QualifiedId/PrefixedId.quoted_id"),
  ("backtick quoting", "pysqlsync/dialect/mysql/connection.py quoted_id")])

prop("P02", "Text embedded as a SQL literal decodes back to the same text",
 "For every text value, the literal the library writes for it in a statement (default values, enumeration values, comments, LIKE prefixes of every dialect that builds them) starts and ends as one string literal of that dialect and denotes exactly the original text; a LIKE prefix matches the text literally. Compound constants render each component in order inside one pair of parentheses.",
 ["inputs"], "all finite strings without restriction on characters (quotes, backslashes, control characters, wildcards), all supported constant kinds",
 "Tests sample a few strings; injection and corruption need particular character adjacency such as a backslash before a quote next to a control character.",
 ["pysqlsync/model/data_types.py", "pysqlsync/dialect/postgresql/object_types.py", "pysqlsync/dialect/delta/object_types.py", "pysqlsync/dialect/snowflake/object_types.py", "pysqlsync/dialect/mssql/object_types.py", "pysqlsync/dialect/oracle/object_types.py"],
 [("quote/constant/escape_like", "pysqlsync/model/data_types.py"), ("sql_quoted_string", "pysqlsync/dialect/*/object_types.py")])

prop("P03", "Object collections behave as insertion-ordered maps keyed by name",
 "A collection of named database objects always lists its members in insertion order under their own local names; adding a member whose name is present is rejected and leaves the collection unchanged, removal deletes exactly the named member, and re-ordering or sorting changes only the order. The difference of two collections is exactly the members of the first whose names are absent from the second, and the intersection is exactly one (own, other) pair per shared name, both in the order of the first; two collections are equal exactly if they hold equal members under the same names.",
 ["inputs", "histories"], "all collections of any size, all pairs of collections, all operation sequences",
 "Tests use collections of two or three fixed members; the map laws are over all members and sequences.",
 ["pysqlsync/formation/object_dict.py"], [("ObjectDict", "pysqlsync/formation/object_dict.py")])

prop("P04", "Column changes emitted turn the old column into the new one",
 "For any two definitions of a same-named column, applying the emitted alteration to the old definition yields the new data type, nullability, default and identity (and, where the dialect stores it with the column, comment), without touching any attribute that is already right. No alteration is emitted for equal definitions, and a dialect that cannot make the change reports an error instead of emitting a partial change.",
 ["inputs"], "all pairs of column definitions (any data type, nullable or not, with or without default, identity, description) in each dialect with its own alteration syntax",
 "Integration tests alter a few columns one attribute at a time; combinations of attribute changes are never executed offline.",
 ["pysqlsync/formation/mutation.py", "pysqlsync/formation/object_types.py", "pysqlsync/dialect/mysql/mutation.py", "pysqlsync/dialect/mssql/mutation.py", "pysqlsync/dialect/oracle/mutation.py"],
 [("mutate_column_stmt", "pysqlsync/formation/mutation.py and dialect/*/mutation.py"), ("data_spec", "pysqlsync/formation/object_types.py and dialect/*/object_types.py")])

prop("P05", "Table changes add, alter and drop exactly what differs",
 "For any two definitions of a same-named table, the emitted script adds every column and constraint only in the new definition exactly once, drops every column and constraint only in the old definition exactly once, alters shared columns that differ, and touches nothing else; identical definitions emit nothing, and a shared constraint with a different definition is rejected. A column whose data must be migrated keeps its old data under a private name until the new column has been filled from it, and is dropped only afterwards; column and table comments end as in the new definition where the dialect maintains them.",
 ["inputs"], "all pairs of table definitions: any number of columns and constraints, any overlap, any order, any attribute difference, each dialect's mutator",
 "Tests compare literal text for a few fixed class pairs; the claim is over any number of columns with any combination of differences.",
 ["pysqlsync/formation/mutation.py", "pysqlsync/dialect/postgresql/mutation.py", "pysqlsync/dialect/mysql/mutation.py", "pysqlsync/dialect/mssql/mutation.py"],
 [("mutate_table_stmt / migrate_column_stmt", "pysqlsync/formation/mutation.py and dialect/*/mutation.py"), ("alter_table_stmt", "pysqlsync/formation/object_types.py, dialect/{mssql,oracle}/object_types.py")])

prop("P06", "Schema synchronization creates and drops exactly what differs, if permitted",
 "For any two database models, the synchronization script creates every schema, type and table present only in the new model exactly once, alters shared ones, and drops every one present only in the old model exactly once, provided the corresponding drop permission is granted; without the permission nothing of that kind is dropped, and a schema whose drop is not permitted is left untouched. Objects are created before they are populated or altered and new schemas before the objects in them, foreign keys are added after the tables, dropped objects go last, and equal models produce no script.",
 ["inputs", "configurations"], "all pairs of models with any number of schemas, enumerations, structs, tables, and all combinations of the four drop permissions",
 "Tests exercise a few fixed model pairs with default permissions; the matrix of object kinds, overlaps and permissions is not sampled.",
 ["pysqlsync/formation/mutation.py", "pysqlsync/formation/object_types.py", "pysqlsync/dialect/*/generator.py"],
 [("mutate_namespace_stmt, mutate_catalog_stmt", "pysqlsync/formation/mutation.py"), ("MutatorOptions passed to the dialect mutator", "pysqlsync/dialect/*/generator.py")])

prop("P07", "Enumeration and composite type changes never lose values or members",
 "For any two definitions of an enumeration, the emitted script adds exactly the values present only in the new definition, in their order, and refuses the change if a value would disappear; for any two definitions of a composite type it drops, retypes and adds exactly the members that differ, and updates the type comment. Two differently named objects are never morphed into each other, and equal definitions emit nothing.",
 ["inputs"], "all pairs of enumerations with any number of values and all pairs of composite types with any members",
 "Tests use one or two fixed enumerations; the refusal and ordering claims are over all value lists.",
 ["pysqlsync/formation/mutation.py", "pysqlsync/dialect/postgresql/mutation.py"],
 [("mutate_enum_stmt, mutate_struct_stmt, check_identity, migrate_enum_stmt", "pysqlsync/formation/mutation.py"), ("PostgreSQLMutator.mutate_struct_stmt", "pysqlsync/dialect/postgresql/mutation.py")])

prop("P08", "Creation and removal scripts cover every declared object in order",
 "The script that creates a table lists every column exactly once in declaration order with its type, nullability, default and identity, and then the primary key over exactly the declared key columns; the script for a schema creates types before tables and every object once, and adds every unique, foreign-key and check constraint of every table exactly once and separately. The removal scripts name every object exactly once, in the reverse order.",
 ["inputs"], "all tables with any number of columns, key columns and constraints of each kind; all schemas and catalogs of such tables; each dialect's rendering",
 "Tests compare text of fixed tables in four dialects; Delta, Snowflake and Redshift rendering and multi-object combinations are not exercised.",
 ["pysqlsync/formation/object_types.py", "pysqlsync/dialect/*/object_types.py"],
 [("create_stmt/drop_stmt/add_constraints_stmt/drop_constraints_stmt/data_spec", "pysqlsync/formation/object_types.py, dialect/*/object_types.py")])

prop("P09", "Merging database models is a conflict-checked union that copies",
 "Merging one model into another yields every object of both exactly once, keeps the existing objects and their order, and appends copies of the new objects in their order; a same-named object with a different definition in the other model is rejected. The merged-in model is never modified, and later changes to the merged model do not show through to it. Sorting a model orders schemas so that each follows those it references and loses none, as long as references are acyclic.",
 ["inputs"], "all pairs of models with any number of schemas, types and tables, any overlap, equal or conflicting",
 "Only small fixed merges are tested; conflict and aliasing claims quantify over every pair of objects.",
 ["pysqlsync/formation/object_types.py"],
 [("Catalog.merge, Namespace.merge, Catalog.sort", "pysqlsync/formation/object_types.py")])

prop("P10", "Row statements bind each supplied column to one placeholder in order",
 "In every insert, merge (insert-or-ignore), upsert and delete statement built for a table and an optional column order, the column list has exactly the requested columns in the requested order (without identity columns for insert and merge), with as many placeholders numbered in the same order. An upsert matches rows on the key, writes every supplied non-key column, never modifies a column that was not supplied, and never overwrites key or identity columns; a delete matches exactly the primary key; an unknown column is rejected.",
 ["inputs", "configurations"], "all tables (any number of columns, identity, unique and key columns), all column orders and subsets, every dialect",
 "Tests check fixed three-column tables with the default order; subsets and permutations of columns are not tested.",
 ["pysqlsync/base.py", "pysqlsync/dialect/postgresql/generator.py", "pysqlsync/dialect/mysql/generator.py", "pysqlsync/formation/object_types.py"],
 [("get_table_insert_stmt/get_table_merge_stmt/get_table_upsert_stmt/get_table_delete_stmt", "pysqlsync/base.py, dialect/{postgresql,mysql}/generator.py"), ("get_columns/get_value_columns/is_lookup_column", "pysqlsync/formation/object_types.py")])

prop("P11", "Every record value reaches the column it belongs to",
 "When rows or objects are inserted, upserted or deleted, the n-th value of each record passed to the database driver is the (converted) value of the field that the n-th column of the accompanying statement names, for every record, in order; omitted fields appear in neither. This holds for any order of the fields relative to the table's columns, for fields omitted by name or by type, and in each dialect's own bulk-loading path; an empty list of rows issues no statement.",
 ["inputs", "configurations"], "all tables, all field orders, omissions and identity columns, any number of records, all dialects with a data path",
 "All data-path tests need a live database server; offline no statement/record pair is ever compared.",
 ["pysqlsync/base.py", "pysqlsync/dialect/postgresql/connection.py", "pysqlsync/dialect/redshift/connection.py", "pysqlsync/dialect/mssql/connection.py", "pysqlsync/dialect/oracle/connection.py"],
 [("insert_data/upsert_data/delete_data, _insert_rows/_upsert_rows/_delete_rows, _generate_records", "pysqlsync/base.py"), ("copy_records_to_table, COPY stream, setinputsizes", "pysqlsync/dialect/*/connection.py")])

prop("P12", "Batching and transformation preserve every record, in order",
 "Reading a data source in batches yields exactly the source's records, once each and in order, in non-empty batches no larger than the batch size of which only the last may be short; selecting and transforming columns maps each record on its own, keeps the record order, leaves NULL as NULL, and applies each column's conversion to that column only. Enumeration look-up conversions first register exactly the distinct non-NULL values in the batch and then map each value to its registered key.",
 ["inputs", "histories"], "all record sequences of any length, synchronous or asynchronous, all column selections and conversions, all batch sizes",
 "The batch size is 100000, so tests never cross a batch boundary; tests that would need a server are skipped.",
 ["pysqlsync/base.py"],
 [("IterableDataSource, AsyncIterableDataSource, SelectorDataSource, TransformerDataSource, SelectorTransformerDataSource, EnumTransformer, EnumListTransformer", "pysqlsync/base.py")])

prop("P13", "The requested TLS mode is enforced and never silently downgraded",
 "With require, verify-ca or verify-full every connection attempt uses TLS and a failed attempt is reported rather than retried without TLS; disable never uses TLS; prefer tries TLS first and falls back to plaintext only after a connection failure, allow does the reverse. verify-ca and verify-full contexts require a certificate from a trusted authority, verify-full additionally checks the host name, and the other modes check neither.",
 ["configurations", "fault_sequences"], "all TLS modes and absence of a mode, in each dialect that negotiates TLS, and every outcome (success, connection error, other error) of each attempt",
 "No test opens a TLS connection; failure of a first attempt cannot be provoked without a server.",
 ["pysqlsync/connection.py", "pysqlsync/dialect/postgresql/connection.py", "pysqlsync/dialect/mysql/connection.py"],
 [("create_context", "pysqlsync/connection.py"), ("open", "pysqlsync/dialect/{postgresql,mysql}/connection.py")])

prop("P14", "Statement execution rejects blanks, skips empty data and reports failures",
 "Executing an empty or blank statement is rejected before the database is contacted, and executing with a sized but empty set of records contacts the database not at all; otherwise the statement reaches the driver exactly once with the records. A driver failure always surfaces as a query error that carries the failing statement and the original cause, without being wrapped twice, and a query returns what the driver returned.",
 ["inputs", "fault_sequences"], "all statements and record collections, every driver outcome (success, query error, any other error)",
 "No test runs against a failing driver; offline the execution layer is not run at all.",
 ["pysqlsync/base.py", "pysqlsync/util/dispatch.py", "pysqlsync/dialect/*/connection.py"],
 [("execute, execute_all, query_one, query_all", "pysqlsync/base.py"), ("thread_dispatch", "pysqlsync/util/dispatch.py")])

prop("P15", "Result sets are decoded row for row without loss or reordering",
 "Decoding a result set yields exactly one result per row in row order: the field-wise object for a data-class signature (by column name), the row as a tuple for a tuple signature, the single cell for a simple type; an empty result set gives an empty list. A first row whose number of columns does not fit the requested shape is rejected, and so is an unsupported shape.",
 ["inputs"], "all result sets of any length and width, and all supported signatures",
 "Tests decode two-row results; the claims are over any number of rows and the shape checks over all widths.",
 ["pysqlsync/resultset.py"],
 [("resultset_unwrap_dict, resultset_unwrap_object, resultset_unwrap_tuple", "pysqlsync/resultset.py")])

prop("P16", "Key constraints discovered row by row are grouped without loss",
 "From any sequence of discovered (constraint name, column) rows, grouping yields exactly one unique constraint per name in order of first appearance, with exactly its columns in row order; foreign keys likewise pair each source column with its target column and keep the target table. A foreign key whose rows name different target tables is rejected.",
 ["inputs", "histories"], "all sequences of rows, interleaved in any way, of any length",
 "The factories run only during discovery, which needs a server; no offline test reaches them.",
 ["pysqlsync/formation/constraints.py"],
 [("UniqueFactory, ForeignFactory", "pysqlsync/formation/constraints.py")])

prop("P17", "Dialect registry and connection strings resolve exactly what was given",
 "A dialect name resolves to exactly the engine most recently registered under it and not since removed; registering a name twice is rejected and unknown names are reported, and a bundled dialect whose driver is missing still resolves but fails with a message naming the missing dependency. Parsing a connection URL returns each percent-encoded component decoded and its TLS mode, rejecting unknown or repeated TLS modes.",
 ["inputs", "histories"], "all registration/removal sequences; all hosts, ports, user names, passwords, database names (any characters, percent-encoded) and TLS modes",
 "Tests parse a few fixed URLs and register one dialect.",
 ["pysqlsync/factory.py", "pysqlsync/connection.py"],
 [("register_dialect, unregister_dialect, get_dialect, get_parameters, UnavailableEngine", "pysqlsync/factory.py"), ("ConnectionParameters.__str__", "pysqlsync/connection.py")])

prop("P18", "SQL types are recognized faithfully and combine without data loss",
 "The column type reconstructed from a database's catalog (name, definition, lengths, precision, scale, time zone, enumeration values) denotes the same type as the definition it came from, and never borrows attributes from another column. The common type of several types can hold every value of each of them, does not depend on grouping, and incompatible families are rejected.",
 ["inputs"], "all catalog rows for supported types with any lengths, precisions and enumeration values; all lists of data types",
 "Discovery tests need a server; offline only a few definitions are parsed.",
 ["pysqlsync/formation/data_types.py", "pysqlsync/model/data_types.py", "pysqlsync/dialect/mssql/data_types.py", "pysqlsync/dialect/oracle/data_types.py"],
 [("sql_data_type_from_name/def/spec", "pysqlsync/formation/data_types.py"), ("compatible_type", "pysqlsync/model/data_types.py"), ("sql_to_odbc_type, sql_to_oracle_type", "dialect/*/data_types.py")])

prop("P19", "Tab-separated export and import preserve every record",
 "Writing objects to tab-separated text and reading the text back with the matching field types yields the same number of records in the same order with equal values in the columns named by the header, for synchronous and asynchronous readers alike, whatever characters the values contain. Renamed and reordered fields are written under, and read from, the mapped names.",
 ["inputs"], "all lists of objects with fields of supported types and any values, any field mapping",
 "Tests round-trip a few records with plain values.",
 ["pysqlsync/data/exchange.py"],
 [("TextWriter, TextReader, AsyncTextReader, fields_to_types", "pysqlsync/data/exchange.py")])

prop("P20", "Entity classes map to tables that express the declared constraints",
 "For every entity class, the derived table has one column per stored field in field order, nullable exactly if the field is optional, with the declared default, identity and comment, the declared primary key, one unique constraint per field marked unique, and one foreign key per reference to another entity pointing at its table and key. Derived definitions are the same every time they are derived.",
 ["programs", "configurations"], "all data-class definitions over supported field types, in each dialect and conversion mode",
 "Tests convert a fixed set of classes in a few modes.",
 ["pysqlsync/formation/py_to_sql.py", "pysqlsync/model/properties.py", "pysqlsync/formation/inspection.py"],
 [("DataclassConverter", "pysqlsync/formation/py_to_sql.py"), ("get_field_properties", "pysqlsync/model/properties.py")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties")
