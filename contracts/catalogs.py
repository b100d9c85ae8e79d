"""
The catalogs of databases, as tables of SQLite databases that the discovery queries of each dialect can be run on.

The queries are texts, out of the verifier's reach; they are evaluated, on random catalogs, by a reader of SQL other than
this project. A query that this reader does not understand is not judged.
"""
from __future__ import annotations

import dataclasses
import re
import sqlite3
import typing


class NotUnderstood(BaseException):
    "A query is out of the reach of the reader."


class Malformed(Exception):
    "A query is no SQL."


# what SQL of all databases has in common with the reader
COMMON = set("""select distinct from where and or not is null like escape in between exists case when then else end as inner left outer join on order by asc desc
    group having count max min sum cast coalesce lower upper true false union all""".split())


@dataclasses.dataclass
class Col:
    name: str
    nullable: bool
    default: typing.Optional[str] = None
    identity: bool = False
    comment: typing.Optional[str] = None


@dataclasses.dataclass
class Key:
    name: str
    columns: list
    target: typing.Optional[tuple] = None
    target_columns: list = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class Tab:
    schema: str
    name: str
    columns: list
    primary: Key
    unique: list = dataclasses.field(default_factory=list)
    foreign: list = dataclasses.field(default_factory=list)
    comment: typing.Optional[str] = None


@dataclasses.dataclass
class Struct:
    schema: str
    name: str
    members: list  # name, whether an array, description
    comment: typing.Optional[str] = None


@dataclasses.dataclass
class Enum:
    schema: str
    name: str
    values: list


SCHEMAS = ["one", "two", "o'ne"]
TABLES = ["t", "u", "t'u", "tt"]
COLUMNS = ["a", "b", "c", "d'e"]


def catalog(g, dialect):
    "Tables of the same and of different names in two schemas (one, where schemas are not told apart)."
    rng = g.rng
    # schemas of MySQL and Oracle are prefixes of the names of tables
    schemas = ["own"] if dialect == "oracle" else rng.sample([*SCHEMAS, "dbo"] if dialect == "mssql" else SCHEMAS, 2)
    names = TABLES if dialect not in ("mysql", "oracle") else ["p__t", "p__u", "q__t", "t", "pp__t", "p_q"]
    tabs = []
    constraints = 0
    for s in schemas:
        # names of constraints are unique in a schema only (in a table, in PostgreSQL)
        count = 0
        for n in rng.sample(names, rng.randint(1, 3)):
            cols = []
            for c in rng.sample(COLUMNS, rng.randint(2, 4)):
                x = Col(c, rng.random() < 0.5)
                if dialect != "limited" and rng.random() < 0.4:
                    x.default = rng.choice(["0", "5"])
                if dialect in ("mssql", "mysql", "oracle", "postgresql") and x.default is None and rng.random() < 0.3:
                    x.identity = True
                if dialect in ("mysql", "oracle", "postgresql") and rng.random() < 0.4:
                    x.comment = rng.choice(["note", "it's"])
                cols.append(x)
            own = [c.name for c in cols]
            if dialect == "postgresql":
                count = 0
            name = lambda: f"k{count}"
            t = Tab(s, n, cols, None)
            t.primary = Key("PRIMARY" if dialect == "mysql" else name(), rng.sample(own, rng.choice([1, 1, 2])))
            count += 1
            for _ in range(rng.randint(0, 2)):
                t.unique.append(Key(name(), rng.sample(own, rng.choice([1, 2]))))
                count += 1
            if dialect in ("mysql", "postgresql") and rng.random() < 0.4:
                t.comment = "table"
            if dialect == "oracle" and rng.random() < 0.4:
                t.comment = "table"
            for _ in range(rng.randint(0, 2)):
                targets = [x for x in tabs + [t] if dialect not in ("mysql",) or x.schema == s]
                targets = [x for x in targets if len(x.primary.columns) <= len(own)]
                if not targets:
                    continue
                x = rng.choice(targets)
                t.foreign.append(Key(name(), rng.sample(own, len(x.primary.columns)), (x.schema, x.name), list(x.primary.columns)))
                count += 1
            tabs.append(t)
    return schemas, tabs


class Database:
    "A connection, and its generator."

    def __init__(self, g, dialect, current, current_stmt):
        self.g = g
        self.db = sqlite3.connect(":memory:", isolation_level=None)
        self.connection = self
        self.generator = self
        self.current = current
        self.stmt = current_stmt
        self.unknown = None
        self.queries = []
        self.structs, self.enums = [], []
        for n in ("current_schema", "schema_name", "database"):
            self.db.create_function(n, 0, lambda: current)
        self.db.create_function("schema_id", 0, lambda: f"id of {current}")
        self.db.create_function("schema_id", 1, lambda s: f"id of {s}")
        self.arrays = set()
        self.db.create_function("format_type", 2, lambda t, m: "date[]" if t in self.arrays else "date")
        self.db.create_function("pg_get_expr", 2, lambda x, t: x)
        # LIKE of these databases tells upper from lower case
        self.db.execute("PRAGMA case_sensitive_like = ON")
        self.db.execute("PRAGMA automatic_index = OFF")

    def attach(self, name):
        self.db.execute(f"ATTACH ':memory:' AS {name}")

    def fill(self, table, columns, rows, ordered=False):
        names = columns.split()
        self.db.execute(f"CREATE TABLE {table} ({', '.join(names)})")
        rows = list(rows)
        if not ordered:
            self.g.rng.shuffle(rows)
        for r in rows:
            if len(r) != len(names):
                raise AssertionError((table, r))
            self.db.execute(f"INSERT INTO {table} VALUES ({', '.join('?' * len(r))})", r)

    def get_current_schema_stmt(self):
        return self.stmt

    async def current_schema(self):
        return self.current

    def run(self, statement):
        self.queries.append(statement)
        s = re.sub(r"pg_catalog\.(format_type|pg_get_expr)\(", r"\1(", statement)
        s = re.sub(r"CROSS JOIN UNNEST\((\w+)\.conkey, \1\.confkey\) AS (\w+)\((\w+), (\w+)\)",
                   r"INNER JOIN (SELECT conoid, pk AS \3, fk AS \4 FROM pg_catalog.unnested) AS \2 ON \2.conoid = \1.oid", s, flags=re.I)
        try:
            cur = self.db.execute(s.strip().removesuffix(";"))
        except sqlite3.Error as e:
            if ("syntax error" in str(e) or "incomplete input" in str(e)) and self.common(s):
                raise Malformed(f"{e}: {s}") from e
            raise NotUnderstood(f"{e}: {s}") from e
        return [d[0].lower() for d in cur.description], cur.fetchall()

    def common(self, s):
        "True if the query has nothing in it that other databases may know and the reader does not."
        s = re.sub(r"'(?:[^']|'')*'", " ", s)
        if re.search(r"[^\w\s.,()=!<>*;-]", s):
            return False
        words = {w.lower() for w in re.findall(r"[A-Za-z_]\w*", s)}
        known = {w.lower() for w in re.findall(r"\bAS\s+(\w+)", s, re.I)} | {w.lower() for w in re.findall(r"(\w+)\s*\.", s)} | COMMON
        known |= {"current_schema", "schema_name", "database", "schema_id", "format_type", "pg_get_expr"}
        for _, schema, _ in self.db.execute("PRAGMA database_list").fetchall():
            known.add(schema)
            for (t,) in self.db.execute(f"SELECT name FROM {schema}.sqlite_master").fetchall():
                known.add(t.lower())
                known |= {r[1].lower() for r in self.db.execute(f"PRAGMA {schema}.table_info({t})").fetchall()}
        return words <= known

    async def query_all(self, signature, statement):
        names, rows = self.run(statement)
        if dataclasses.is_dataclass(signature):
            out = []
            for r in rows:
                v = dict(zip(names, r))
                if v.get("constraint_type") in ("p", "u", "f"):
                    v["constraint_type"] = v["constraint_type"].encode()
                out.append(signature(**{f.name: v[f.name] for f in dataclasses.fields(signature)}))
            return out
        if typing.get_origin(signature) is tuple:
            return [tuple(r) for r in rows]
        return [r[0] for r in rows]

    async def query_one(self, signature, statement):
        rows = await self.query_all(signature, statement)
        if not rows:
            raise ValueError("no rows")
        return rows[0]

    async def execute(self, statement):
        raise AssertionError("a statement is executed")


def information_schema(db, tabs, dialect):
    db.attach("information_schema")
    extra = "column_type extra column_comment" if dialect == "mysql" else ""
    rows = []
    for t in tabs:
        for i, c in enumerate(t.columns):
            r = ["def", t.schema, t.name, c.name, i + 1, c.default, "YES" if c.nullable else "NO", "date", None, None, None, None]
            if extra:
                r += ["date", "auto_increment" if c.identity else "", c.comment or ""]
            rows.append(r)
    db.fill("information_schema.columns", "table_catalog table_schema table_name column_name ordinal_position column_default is_nullable data_type "
            "character_maximum_length numeric_precision numeric_scale datetime_precision " + extra, rows)
    db.fill("information_schema.tables", "table_catalog table_schema table_name table_type table_comment",
            [["def", t.schema, t.name, "BASE TABLE", t.comment or ""] for t in tabs])
    cons, usage, refs = [], [], []
    for t in tabs:
        for kind, keys in (("PRIMARY KEY", [t.primary]), ("UNIQUE", t.unique), ("FOREIGN KEY", t.foreign)):
            for k in keys:
                cons.append(["def", t.schema, k.name, "def", t.schema, t.name, kind])
                for i, c in enumerate(k.columns):
                    r = ["def", t.schema, k.name, "def", t.schema, t.name, c, i + 1]
                    if dialect == "mysql":
                        r += [*(k.target or (None, None)), k.target_columns[i] if k.target else None]
                    usage.append(r)
                if k.target:
                    other = next(x for x in tabs if (x.schema, x.name) == k.target)
                    refs.append(["def", t.schema, k.name, "def", other.schema, other.primary.name, t.name, other.name])
    db.fill("information_schema.table_constraints", "constraint_catalog constraint_schema constraint_name table_catalog table_schema table_name constraint_type", cons)
    more = " referenced_table_schema referenced_table_name referenced_column_name" if dialect == "mysql" else ""
    db.fill("information_schema.key_column_usage", "constraint_catalog constraint_schema constraint_name table_catalog table_schema table_name column_name "
            "ordinal_position" + more, usage)
    db.fill("information_schema.referential_constraints", "constraint_catalog constraint_schema constraint_name unique_constraint_catalog "
            "unique_constraint_schema unique_constraint_name table_name referenced_table_name", refs)


def sys_schema(db, tabs):
    "What SQL Server has beside the information schema."
    db.attach("sys")
    db.fill("sys.schemas", "schema_id name", [[f"id of {s}", s] for s in sorted({t.schema for t in tabs})])
    ids = {(t.schema, t.name): 100 + i for i, t in enumerate(tabs)}
    db.fill("sys.tables", "object_id name schema_id is_ms_shipped", [[ids[t.schema, t.name], t.name, f"id of {t.schema}", 0] for t in tabs]
            + [[999, "shipped", f"id of {tabs[0].schema}", 1]])
    cols, defs = [], []
    for t in tabs:
        for i, c in enumerate(t.columns):
            d = 0
            if c.default is not None:
                d = 1000 + len(defs)
                defs.append([d, ids[t.schema, t.name], i + 1, c.default])
            cols.append([ids[t.schema, t.name], i + 1, c.name, int(c.identity), d])
    db.fill("sys.columns", "object_id column_id name is_identity default_object_id", cols)
    db.fill("sys.default_constraints", "object_id parent_object_id parent_column_id definition", defs)


def dba(db, tabs):
    "The dictionary of Oracle."
    db.fill("dba_tables", "owner table_name tablespace_name status temporary secondary dropped read_only",
            [[t.schema, t.name, "USERS", "VALID", "N", "N", "NO", "NO"] for t in tabs] + [["SYS", "sys", "SYSTEM", "VALID", "N", "N", "NO", "NO"]])
    db.fill("dba_tab_comments", "owner table_name comments", [[t.schema, t.name, t.comment] for t in tabs])
    db.fill("dba_tab_columns", "owner table_name column_name data_type data_type_owner data_length data_precision data_scale nullable data_default char_length "
            "identity_column column_id", [[t.schema, t.name, c.name, "DATE", None, 7, None, None, "Y" if c.nullable else "N", c.default, 0,
                                           "YES" if c.identity else "NO", i + 1] for t in tabs for i, c in enumerate(t.columns)])
    db.fill("dba_col_comments", "owner table_name column_name comments", [[t.schema, t.name, c.name, c.comment] for t in tabs for c in t.columns])
    cons, cols = [], []
    for t in tabs:
        for kind, keys in (("P", [t.primary]), ("U", t.unique), ("R", t.foreign)):
            for k in keys:
                other = next((x for x in tabs if (x.schema, x.name) == k.target), None)
                cons.append([t.schema, k.name, kind, t.name, other.schema if other else None, other.primary.name if other else None])
                cols += [[t.schema, k.name, t.name, c, i + 1] for i, c in enumerate(k.columns)]
    db.fill("dba_constraints", "owner constraint_name constraint_type table_name r_owner r_constraint_name", cons)
    db.fill("dba_cons_columns", "owner constraint_name table_name column_name position", cols)


def pg_catalog(db, tabs):
    db.attach("pg_catalog")
    rng = db.g.rng
    oid = iter(rng.sample(range(1000, 9000), 500))
    schemas = {s: next(oid) for s in [*sorted({t.schema for t in tabs}), "pg_catalog"]}
    db.fill("pg_catalog.pg_namespace", "oid nspname", [[o, s] for s, o in schemas.items()])
    cls = {(t.schema, t.name): next(oid) for t in tabs}
    date = next(oid)
    types = [[date, "date", schemas["pg_catalog"], 0]]
    attrs, defs, dsc, classes = [], [], [], []
    number = {}
    for t in tabs:
        o = cls[t.schema, t.name]
        classes.append([o, t.name, schemas[t.schema], "r"])
        # the row type of the table
        types.append([next(oid), t.name, schemas[t.schema], 0])
        if t.comment:
            dsc.append([o, 0, t.comment])
        n = 0
        attrs.append([o, "ctid", -1, date, -1, 0, 1, "", 0])
        for c in t.columns:
            n += rng.choice([1, 1, 2])
            number[o, c.name] = n
            attrs.append([o, c.name, n, date, -1, 0, int(not c.nullable), rng.choice("ad") if c.identity else "", 0])
            if c.default is not None:
                defs.append([o, n, c.default])
            if c.comment:
                dsc.append([o, n, c.comment])
        # an index and a sequence are relations too
        classes.append([next(oid), f"{t.name}_idx", schemas[t.schema], "i"])
    # types of the user: each has attributes in a relation of its own, and a description
    array = next(oid)
    types.append([array, "_date", schemas["pg_catalog"], date])
    db.arrays.add(array)
    labels = []
    for s in sorted({t.schema for t in tabs}):
        for n in rng.sample(["s", "s2", "s't"], rng.randint(0, 2)):
            x = Struct(s, n, [], rng.choice([None, "type", "it's"]))
            db.structs.append(x)
            o, k = next(oid), next(oid)
            types.append([k, n, schemas[s], 0])
            classes.append([o, n, schemas[s], "c"])
            if x.comment:
                dsc.append([k, 0, x.comment])
            number_ = 0
            for m in rng.sample(COLUMNS, rng.randint(1, 4)):
                number_ += rng.choice([1, 1, 2])
                a, d = rng.random() < 0.3, rng.choice([None, "member"])
                x.members.append((m, a, d))
                attrs.append([o, m, number_, array if a else date, -1, int(a), 0, "", 0])
                if d:
                    dsc.append([o, number_, d])
        for n in rng.sample(["e", "e2", "e't"], rng.randint(0, 2)):
            x = Enum(s, n, rng.sample(["z", "y", "x", "it's"], rng.randint(1, 4)))
            db.enums.append(x)
            k = next(oid)
            types.append([k, n, schemas[s], 0])
            labels += [[next(oid), k, v, (i + 1) * 1.5] for i, v in enumerate(x.values)]
    rng.shuffle(labels)
    db.fill("pg_catalog.pg_class", "oid relname relnamespace relkind", classes)
    db.fill("pg_catalog.pg_attribute", "attrelid attname attnum atttypid atttypmod attndims attnotnull attidentity attisdropped", attrs)
    db.fill("pg_catalog.pg_attrdef", "adrelid adnum adbin", defs)
    db.fill("pg_catalog.pg_description", "objoid objsubid description", dsc)
    db.fill("pg_catalog.pg_type", "oid typname typnamespace typelem", types)
    db.fill("pg_catalog.pg_enum", "oid enumtypid enumlabel enumsortorder", labels)
    cons, unnested = [], []
    for t in tabs:
        o = cls[t.schema, t.name]
        for kind, keys in (("p", [t.primary]), ("u", t.unique), ("f", t.foreign), ("c", [Key("check", [t.columns[0].name])])):
            for k in keys:
                i = next(oid)
                f = cls[k.target] if k.target else 0
                cons.append([i, k.name, kind, o, f])
                unnested += [[i, number[o, c], number[f, k.target_columns[n]] if k.target else None] for n, c in enumerate(k.columns)]
    db.fill("pg_catalog.pg_constraint", "oid conname contype conrelid confrelid", cons)
    db.fill("pg_catalog.unnested", "conoid pk fk", unnested, ordered=True)
