"""Concrete column types for the concrete runs."""


def random_type(rng, cands=None):
    from pysqlsync.model import data_types as dt
    from pysqlsync.model.id_types import QualifiedId

    pool = {
        dt.SqlIntegerType: lambda: dt.SqlIntegerType(rng.choice([2, 4, 8])),
        dt.SqlVariableCharacterType: lambda: dt.SqlVariableCharacterType(rng.choice([None, 10, 255])),
        dt.SqlEnumType: lambda: dt.SqlEnumType(rng.choice([["a"], ["a", "b"], ["x'y"]])),
        dt.SqlUserDefinedType: lambda: dt.SqlUserDefinedType(QualifiedId(None, rng.choice(["ty", "T y"]))),
        dt.SqlTimestampType: lambda: dt.SqlTimestampType(rng.choice([None, 3]), rng.random() < 0.5),
        dt.SqlUuidType: lambda: dt.SqlUuidType(),
        dt.SqlDecimalType: lambda: dt.SqlDecimalType(rng.choice([None, 10]), None),
        dt.SqlBooleanType: lambda: dt.SqlBooleanType(),
    }
    ks = [k for k in (cands or pool) if k in pool]
    return pool[rng.choice(ks)]()
