"""P12 Batching and transformation preserve every record, in order."""
from __future__ import annotations

import pysqlsync.base as pb

from pyvc.contract import contract

B = "pysqlsync/base.py::"


class Records:
    "An asynchronous iterable."

    def __init__(self, items):
        self.items = items

    async def __aiter__(self):
        for i in self.items:
            yield i


def batching(g, cls):
    "Every record once, in order, in batches that are full except perhaps the last, none of them empty."
    size = pb.BATCH_SIZE
    if g.symbolic:
        from pyvc.invariants import Batching

        records = g.seq("r", lambda p: g.opaque(p))
        rule = g.e.loop_rule = Batching(size, "batches")
    else:
        size = 3
        records = [(i,) for i in range(g.choice("number of records", list(range(0, 14)) + [90]))]
    old = pb.BATCH_SIZE
    try:
        if not g.symbolic:
            pb.BATCH_SIZE = size
        src = g.new(cls, g.new(Records, records) if cls is pb.AsyncIterableDataSource else records)
        r = g.outcome(src, "batches")
    finally:
        pb.BATCH_SIZE = old
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    out = g.items(r.value)
    if not g.symbolic:
        g.ensure_eq("every record once, in order", [x for b in out for x in b], records)
        g.ensure("full batches", all(len(b) == size for b in out[:-1]), out)
        g.ensure("the last batch", all(0 < len(b) <= size for b in out[-1:]), out)
        g.cover("iteration")
        return
    if rule.full is None:
        g.fail("the records are read", out)
        return
    if out[:1] != [rule.full]:
        g.fail("what was yielded stays yielded", out)
        return
    flat = []
    for n, b in enumerate(out[1:]):
        flat.extend(b.items)
        g.ensure("no batch is empty", g.gt(g.length(b), 0), b)
        if n < len(out) - 2:
            g.ensure_eq("only the last batch may be short", g.length(b), size)
    g.ensure_eq("the records left over are passed on", g.list_of(*flat), g.list_of(rule.left))


for _c in (pb.IterableDataSource, pb.AsyncIterableDataSource):
    contract("P12", f"batches_{_c.__name__}", [B + f"{_c.__name__}.batches"], covers=("iteration",))(lambda g, c=_c: batching(g, c))


# ---------------------------------------------------------------------- selection and transformation
class Source(pb.DataSource):
    "A data source of the given batches."

    def __init__(self, items):
        self.items = items

    async def batches(self):
        for i in self.items:
            yield i


class Conversion:
    "What a transformer does with the values of a batch."

    def __init__(self, transformer, records):
        self.transformer = transformer
        self.records = records

    def convert(self, value):
        return converted(self.transformer, self.records, value)


class Transformer(pb.RecordTransformer):
    "A transformer that may depend on the records of the batch, or leaves values as they are."

    def __init__(self, name, idle):
        self.name = name
        self.idle = idle

    async def get(self, records):
        if self.idle:
            return None
        return Conversion(self, records).convert


def converted(transformer, records, value):
    assert value is not None, "NULL is never converted"
    return ("converted", transformer.name, tuple(records), value)


def sym_converted(e, transformer, records, value):
    import z3
    from pyvc.values import Obj, Opaque, Text, SOpt

    if isinstance(value, SOpt):
        value = e.force(value)
    if value is None:
        raise AssertionError("NULL is never converted")
    batch = z3.Const(records.items[0].base.name, Obj)
    return Opaque(e.fn("converted", Text, Obj, Obj, Obj)(e.term(transformer.name), batch, e.obj_term(value)))


class Field:
    def __init__(self, name, transformer, kept):
        self.name = name
        self.transformer = transformer
        self.kept = kept


def fields_of(g):
    def make(p):
        n = g.name_text(f"{p}.name")
        return g.new(Field, n, g.new(Transformer, n, g.bool(f"{p}.idle")), g.bool(f"{p}.kept"))
    return g.seq("f", make, key=lambda f: f.name)


def cell(g, row, f):
    if not g.symbolic:
        return None if g.bool("null") else (row, f.name)
    import z3
    from pyvc.values import Obj, Opaque, SOpt, Text

    r, t = z3.Const(row, Obj), g.e.term(f.name)
    return SOpt(g.e.fn("null", Obj, Text, z3.BoolSort())(r, t), Opaque(g.e.fn("cell", Obj, Text, Obj)(r, t)))


def want(g, f, row, batch):
    "What becomes of the value of the field in the row, by cases."
    if not g.symbolic:
        v = next(v for h, v in zip(row.fields, row) if h is f)
        return [(f.transformer.idle or v is None, v), (True, v is not None and converted(f.transformer, batch, v))]
    idle, none = f.transformer.idle, g.is_none(row(f))
    return [(idle, row(f)), (g.And(g.Not(idle), none), None),
            (g.And(g.Not(idle), g.Not(none)), g.call(converted, f.transformer, batch, row(f).val))]


def transformation(g, select, transform):
    fields = fields_of(g)
    rows = {}

    def record(p):
        xs = g.map(fields, lambda f: cell(g, p, f))
        if g.symbolic:
            return xs
        return Row(xs, fields)

    batches = g.seq("b", lambda p: g.seq(f"{p}.r", record))
    src = g.new(Source, batches)
    kept = g.filter(fields, lambda f: f.kept) if select else fields
    args = []
    if select:
        pos = g.enumerate(fields)
        args.append(g.map(g.filter(pos, lambda x: x[1].kept), lambda x: x[0]))
    if transform:
        args.append(g.map(kept, lambda f: f.transformer))
    cls = {(True, False): pb.SelectorDataSource, (False, True): pb.TransformerDataSource,
           (True, True): pb.SelectorTransformerDataSource}[select, transform]
    if g.symbolic:
        g.override(converted, sym_converted)
    ds = g.new(cls, src, *args)
    r = g.outcome(ds, "batches")
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return

    def expected(batch):
        def one(row):
            if g.symbolic:
                # the name of the row determines its values
                p = row_name(row)
                get = lambda f: cell(g, p, f)
            else:
                get = row
            xs = g.cases(kept, (lambda f: want(g, f, get, batch)) if transform else (lambda f: [(True, value(g, f, get))]))
            return g.e.new_seq(xs.items, "tuple") if g.symbolic else tuple(xs)
        return g.map(batch, one)

    g.ensure_eq("every record once, in order, every value by its own conversion", g.list_of(*g.items(r.value)),
                g.map(batches, expected))
    g.cover("batches")


class Row(tuple):
    def __new__(cls, xs, fields):
        self = tuple.__new__(cls, xs)
        self.fields = fields
        return self


def value(g, f, row):
    return row(f) if g.symbolic else next(v for h, v in zip(row.fields, row) if h is f)


def row_name(row):
    "The record of which these are the values."
    v = row.items[0].cases[0][1][0].val.e
    return v.arg(0).decl().name()


for _n, _s, _t in (("Selector", True, False), ("Transformer", False, True), ("SelectorTransformer", True, True)):
    contract("P12", f"batches_{_n}", [B + f"{_n}DataSource.batches"], covers=("batches",))(
        lambda g, s=_s, t=_t: transformation(g, s, t))


# ---------------------------------------------------------------------- look-up of enumeration values
class Database:
    "A lookup table: what has been registered, and the key of each value."

    def __init__(self, table):
        self.table = table
        self.merged = []
        self.queries = []

    def get_table_merge_stmt(self, table):
        assert table is self.table, "another table"
        return "MERGE"


class Generator(pb.BaseGenerator):
    def __init__(self):
        pass

    placeholder = None


class Holder:
    def __init__(self, generator):
        self.generator = generator


class LookupContext(pb.BaseContext):
    "A context that registers values in the lookup table, which may have been registered before."

    def __init__(self, database, before):
        super().__init__(Holder(database))
        self.database = database
        self.before = before

    _execute = _execute_all = _query_all = None

    async def execute_all(self, statement, records):
        assert statement == "MERGE"
        self.database.merged.append(records)

    async def query_all(self, signature, statement):
        assert signature == tuple[str, int], signature
        self.database.queries.append(statement)
        known = dict.fromkeys(self.before)
        for rs in self.database.merged:
            for (v,) in rs:
                known[v] = None
        return [(v, key_of_value(v)) for v in known]


def key_of_value(v):
    return 1000 + sum(map(ord, v))


ENUM_VALUES = ["a", "b", "", "it's", "A", "c d"]


class Registered:
    "The keys of the registered values, as a mapping."

    def __getitem__(self, value):
        return registered_key(value)


def registered_key(value):
    return key_of_value(value)


class Values:
    def __init__(self, values):
        self.values = values


def enum_get(g, cls):
    "Exactly the values in the batch other than NULL are registered; each is mapped to its registered key."
    many = cls is pb.EnumListTransformer
    index = g.choice("index", [0, 1, 2])
    merged = []
    if g.symbolic:
        import z3
        from pyvc.values import SInt, Text

        def merge(e, self, values):
            merged.append(values)
            return e.call(Registered, [], {})

        g.override(pb.BaseEnumTransformer._merge_lookup_table, merge)
        g.override(registered_key, lambda e, v: SInt(e.fn("registered key", Text, z3.IntSort())(e.term(v))))
    else:
        async def merge(self, values):
            merged.append(values)
            return Registered()

        g.stub(pb.BaseEnumTransformer, "_merge_lookup_table", merge)

    def make(p):
        if many:
            v = g.opt(f"{p}.v", lambda q: g.seq(f"{q}.i", lambda t: g.name_text(t)))
        else:
            v = g.opt(f"{p}.v", lambda q: g.name_text(q))
        return tuple(v if i == index else g.opaque(f"{p}.{i}") for i in range(3))

    records = g.seq("r", make)
    tr = g.obj(cls, index=index, generator=g.new(Generator), table=None, context=None)
    r = g.outcome(tr, "get", records)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    g.ensure("registered once", len(merged) == 1, merged)
    kept = g.filter(records, lambda x: g.Not(g.is_none(x[index])))
    present = g.map(kept, lambda x: x[index].val if g.symbolic else x[index])
    if not g.symbolic:
        flat = {i for v in present for i in v} if many else set(present)
        g.ensure_eq("exactly the values of the batch are registered", merged[0], flat)
    elif many:
        g.ensure_eq("exactly the values of the batch are registered", merged[0],
                    g.as_set(g.flat(present)))
    else:
        g.ensure_eq("exactly the values of the batch are registered", merged[0], g.as_set(present))
    if many:
        v = g.seq("v", lambda t: g.name_text(t))
        g.ensure_eq("every item is mapped to its key, in order", g.to_list(g.call(r.value, v)), g.map(v, lambda i: g.call(registered_key, i)))
    else:
        v = g.name_text("v")
        g.ensure_eq("the value is mapped to its key", g.call(r.value, v), g.call(registered_key, v))
    g.cover("get")


def merge_table(g):
    values = g.seq("v", lambda p: g.name_text(p), key=lambda v: v)
    from contracts.ddl import BASE as d
    import pysqlsync.formation.object_types as ot
    from pysqlsync.model.data_types import SqlIntegerType, SqlVariableCharacterType
    from pysqlsync.model.id_types import LocalId, QualifiedId

    key, val = LocalId("id"), LocalId("value")
    cols = [d.column(key, SqlIntegerType(4), False, identity=True), d.column(val, SqlVariableCharacterType(), False)]
    if g.choice("order of the columns", [0, 1]):
        cols.reverse()
    table = d.table(QualifiedId("ns", "lookup"), cols, primary_key=(key,), constraints=[ot.UniqueConstraint(LocalId("uq"), (val,))])
    rows = g.seq("row", lambda p: (g.name_text(f"{p}.value"), g.int(f"{p}.key")), key=lambda x: x[0])
    db = g.new(Database, table)
    ctx = g.new(TableContext, db, rows)
    tr = g.obj(pb.EnumTransformer, index=0, generator=None, table=table, context=ctx)
    r = g.outcome(tr, "_merge_lookup_table", g.as_set(values))
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    merged, queries = g.items(db.merged), g.items(db.queries)
    if g.truth(g.eq(g.length(values), 0)):
        g.ensure("nothing is sent if there is nothing to register", len(merged) == 0 and len(queries) == 0, (merged, queries))
        g.ensure_eq("no keys", g.to_list(g.method(r.value, "items")), g.list_of())
        g.cover("empty")
        return
    g.ensure("one statement registers the values", len(merged) == 1, merged)
    if len(merged) == 1:
        got = g.map(merged[0], lambda t: g.item(t, 0))
        g.ensure_eq("exactly the values are registered, once each", g.as_set(got), g.as_set(values))
        g.ensure_eq("none twice", g.length(merged[0]), g.length(values))
    import re
    for q in queries:
        g.ensure("the value and its key are queried", re.fullmatch(r'SELECT\s+"value",\s*"id"\s+FROM\s+"ns"\."lookup"\s*;?', q), q)
    g.ensure("registered before the keys are queried", len(queries) == 1 and db.queried_after == 1, queries)
    g.ensure_eq("every value and its key", g.to_list(g.method(r.value, "items")), rows)
    g.cover("merged")


class TableContext(pb.BaseContext):
    "A context whose lookup table has the given rows once values are registered."

    _execute = _execute_all = _query_all = None

    def __init__(self, database, rows):
        self.database = database
        self.rows = rows
        self.connection = Holder(database)

    async def execute_all(self, statement, records):
        assert statement == "MERGE"
        self.database.merged.append(records)

    async def query_all(self, signature, statement):
        assert signature == tuple[str, int], signature
        self.database.queries.append(statement)
        self.database.queried_after = len(self.database.merged)
        return self.rows


contract("P12", "merge_lookup_table", [B + "BaseEnumTransformer._merge_lookup_table"], covers=("empty", "merged"))(merge_table)
for _c in (pb.EnumTransformer, pb.EnumListTransformer):
    contract("P12", f"enum_{_c.__name__}", [B + f"{_c.__name__}.get", B + "BaseGenerator.get_enum_transformer",
                                            B + "BaseGenerator.get_enum_list_transformer"], covers=("get",))(lambda g, c=_c: enum_get(g, c))


def enum_lookup(g, cls):
    from contracts.ddl import BASE as d
    import pysqlsync.formation.object_types as ot
    from pysqlsync.model.data_types import SqlIntegerType, SqlVariableCharacterType
    from pysqlsync.model.id_types import LocalId, QualifiedId

    key, val = LocalId("id"), LocalId("value")
    cols = [d.column(key, SqlIntegerType(4), False, identity=True), d.column(val, SqlVariableCharacterType(), False)]
    if g.choice("order of the columns", [0, 1]):
        cols.reverse()
    table = d.table(QualifiedId("ns", "lookup"), cols, primary_key=(key,), constraints=[ot.UniqueConstraint(LocalId("uq"), (val,))])
    width = g.choice("width of the records", [1, 2, 3])
    index = g.choice("index", list(range(width)))
    many = cls is pb.EnumListTransformer
    batch = []
    for n in range(g.choice("records", [0, 1, 2, 5, 9])):
        if g.choice("null", [False, False, False, True]):
            v = None
        elif many:
            v = [g.choice("value", ENUM_VALUES) for _ in range(g.choice("items", [0, 1, 3]))]
            if g.choice("set", [False, True]):
                v = set(v)
        else:
            v = g.choice("value", ENUM_VALUES)
        batch.append(tuple(v if i == index else ("other", n, i) for i in range(width)))
    before = [v for v in ENUM_VALUES if g.choice(f"{v} is known", [False, True])]
    db = Database(table)
    ctx = LookupContext(db, before)
    generator = Generator()
    r = g.outcome(cls(ctx, table, generator, index), "get", batch)
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    present = [x[index] for x in batch if x[index] is not None]
    wanted = {i for v in present for i in v} if many else set(present)
    merged = [v for rs in db.merged for v in rs]
    g.ensure("exactly the values in the batch are registered, once each", sorted(merged) == sorted((v,) for v in wanted), (merged, wanted))
    g.ensure("nothing is sent if there is nothing to register", bool(wanted) or (not db.merged and not db.queries), db.queries)
    for v in present:
        got = r.value(v)
        if many:
            g.ensure_eq("every item is mapped to its registered key", list(got), [key_of_value(i) for i in v])
        else:
            g.ensure_eq("the value is mapped to its registered key", got, key_of_value(v))
        g.cover("lookup")
    for q in db.queries:
        import re
        g.ensure("the value and its key are queried", re.fullmatch(r'SELECT\s+"value",\s*"id"\s+FROM\s+"ns"\."lookup"\s*;?', q), q)


for _c in (pb.EnumTransformer, pb.EnumListTransformer):
    contract("P12", f"lookup_{_c.__name__}", [B + f"{_c.__name__}.get", B + "BaseEnumTransformer._merge_lookup_table"], covers=("lookup",),
             bounded="batches of up to 9 records with values out of a fixed list")(lambda g, c=_c: enum_lookup(g, c))


@contract("P12", "data_source", [B + "to_data_source"], covers=("refused", "made"), samples=60)
def data_source(g):
    "What records can be read from becomes a source of them; anything else is refused."
    kind = g.choice("kind", ["list", "lazy", "stream", "number", "none"])
    items = g.seq("r", lambda p: g.opaque(p))
    given = {"list": items, "lazy": g.new(Lazily, items), "stream": g.new(Later, items), "number": 7, "none": None}[kind]
    r = g.outcome(Sources(), "make", given)
    if kind in ("number", "none"):
        g.ensure("refused", r.raised and isinstance(r.value, TypeError), r)
        g.cover("refused")
        return
    g.ensure("not refused", not r.raised, r)
    if r.raised:
        return
    want = pb.AsyncIterableDataSource if kind == "stream" else pb.IterableDataSource
    g.ensure("a source of the records", type(r.value) is want and r.value.records is given, r)
    g.cover("made")


class Sources:
    def make(self, x):
        return pb.to_data_source(x)


class Lazily:
    def __init__(self, items):
        self.items = items

    def __iter__(self):
        yield from self.items


class Later:
    def __init__(self, items):
        self.items = items

    async def __aiter__(self):
        for x in self.items:
            yield x
