"""Schema objects with the attributes of avro.schema of the real package."""
import json
import os

PRIMITIVE = ("null", "boolean", "int", "long", "float", "double", "bytes", "string")


class SchemaParseException(Exception):
    pass


class Schema:
    def __init__(self, kind, raw):
        self.type = kind
        self._raw = raw

    def to_json(self, names=None):
        return self._raw


class PrimitiveSchema(Schema):
    @property
    def fullname(self):
        return self.type

    name = fullname


class Field:
    def __init__(self, name, kind, raw):
        self.name = name
        self.type = kind
        self.has_default = "default" in raw
        self.default = raw.get("default")


class RecordSchema(Schema):
    def __init__(self, raw, names):
        super().__init__("record", raw)
        self.name = raw["name"]
        self.namespace = raw.get("namespace")
        full = self.name if not self.namespace else self.namespace + "." + self.name
        self.fullname = full
        names[full] = self
        self.fields = [Field(f["name"], build(f["type"], names), f) for f in raw["fields"]]
        self.field_map = {f.name: f for f in self.fields}
        self.fields_dict = self.field_map


class ArraySchema(Schema):
    def __init__(self, raw, names):
        super().__init__("array", raw)
        self.items = build(raw["items"], names)


class MapSchema(Schema):
    def __init__(self, raw, names):
        super().__init__("map", raw)
        self.values = build(raw["values"], names)


class UnionSchema(Schema):
    def __init__(self, raw, names):
        super().__init__("union", raw)
        self.schemas = tuple(build(s, names) for s in raw)


def build(raw, names):
    if isinstance(raw, list):
        return UnionSchema(raw, names)
    if isinstance(raw, str):
        if raw in PRIMITIVE:
            return PrimitiveSchema(raw, raw)
        if raw in names:
            return names[raw]
        raise SchemaParseException(f"unknown type {raw!r}")
    kind = raw["type"]
    if isinstance(kind, (list, dict)):
        return build(kind, names)
    if kind == "record":
        return RecordSchema(raw, names)
    if kind == "array":
        return ArraySchema(raw, names)
    if kind == "map":
        return MapSchema(raw, names)
    if kind in PRIMITIVE:
        return PrimitiveSchema(kind, raw)
    raise SchemaParseException(f"unknown type {kind!r}")


def parse(text):
    log = os.environ.get("AVRO_PARSE_LOG")
    if log:
        with open(log, "a", encoding="utf-8") as f:
            f.write(json.dumps(json.loads(text), sort_keys=True, separators=(",", ":")) + "\n")
        # fault injection: some texts are refused
        word = os.environ.get("AVRO_REFUSE")
        if word and word in text:
            raise SchemaParseException("refused on purpose")
    return build(json.loads(text), {})


Parse = parse
