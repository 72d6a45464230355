import json

import avro.io
import avro.schema


class ValidationError(Exception):
    pass


def validate(datum, schema, *a, **k):
    """Like the real one: true, or an exception."""
    if not avro.io.conforms(avro.schema.parse(json.dumps(schema)), datum):
        raise ValidationError("the datum does not fit the schema")
    return True
