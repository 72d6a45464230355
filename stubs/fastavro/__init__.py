"""Stand-in for fastavro, which the helper calls only after a failure."""
from . import validation


def parse_schema(schema, *a, **k):
    return schema
