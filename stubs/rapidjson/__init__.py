"""Stand-in for python-rapidjson: validates types, required and properties."""
import json


class JSONDecodeError(ValueError):
    pass


class ValidationError(ValueError):
    pass


def loads(text, **kw):
    try:
        return json.loads(text)
    except json.JSONDecodeError as e:
        raise JSONDecodeError(str(e))


def dumps(value, **kw):
    return json.dumps(value, **kw)


def _is(value, t):
    if t == "object":
        return isinstance(value, dict)
    if t == "array":
        return isinstance(value, list)
    if t == "string":
        return isinstance(value, str)
    if t == "integer":
        return isinstance(value, int) and not isinstance(value, bool)
    if t == "number":
        return isinstance(value, (int, float)) and not isinstance(value, bool)
    if t == "boolean":
        return isinstance(value, bool)
    return value is None


def _check(schema, value):
    t = schema.get("type")
    if t and not any(_is(value, x) for x in ([t] if isinstance(t, str) else t)):
        raise ValidationError("type", "#", "#")
    if isinstance(value, dict):
        for k in schema.get("required", []):
            if k not in value:
                raise ValidationError("required", "#", "#")
        for k, s in schema.get("properties", {}).items():
            if k in value:
                _check(s, value[k])


class Validator:
    def __init__(self, schema):
        self._schema = loads(schema)

    def __call__(self, text):
        if not isinstance(text, (str, bytes)):
            raise TypeError("Expected string")
        _check(self._schema, loads(text))
