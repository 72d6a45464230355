"""The writer only carries the schema; see avro.datafile."""


class DatumWriter:
    def __init__(self, writer_schema=None, writers_schema=None):
        self.writer_schema = writer_schema


class DatumReader(DatumWriter):
    pass


class AvroTypeException(Exception):
    pass


def conforms(schema, datum):
    """The real package's validate(): is this datum one of the schema?"""
    t = schema.type
    if t == "null":
        return datum is None
    if t == "boolean":
        return isinstance(datum, bool)
    if t in ("int", "long"):
        return isinstance(datum, int) and not isinstance(datum, bool) and -(1 << 63) <= datum < (1 << 63)
    if t in ("float", "double"):
        return isinstance(datum, (int, float)) and not isinstance(datum, bool)
    if t == "string":
        return isinstance(datum, str)
    if t == "bytes":
        return isinstance(datum, (bytes, bytearray))
    if t == "array":
        return isinstance(datum, list) and all(conforms(schema.items, x) for x in datum)
    if t == "map":
        return isinstance(datum, dict) and all(isinstance(k, str) and conforms(schema.values, v) for k, v in datum.items())
    if t == "union":
        return any(conforms(s, datum) for s in schema.schemas)
    if t == "record":
        return isinstance(datum, dict) and all(conforms(f.type, datum.get(f.name)) for f in schema.fields)
    return False
