"""Records every datum the helper appends, in the file named by DATUM_LOG or, as
the real writer does, in the output file (refusing what the schema does not
describe)."""
import io
import json
import os

import avro.io


def plain(x):
    if isinstance(x, (bytes, bytearray)):
        return {"$bytes": list(x)}
    if isinstance(x, dict):
        return {"$dict": [[k, plain(v)] for k, v in x.items()]}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return {"$other": repr(x)}


class DataFileWriter:
    def __init__(self, writer, datum_writer, schema=None, codec="null", writer_schema=None):
        self._out = writer
        self._schema = schema or writer_schema
        log = os.environ.get("DATUM_LOG")
        self._check = log is None
        self._log = open(log, "w", encoding="utf-8") if log else io.TextIOWrapper(writer, encoding="utf-8")

    def append(self, datum):
        if self._check and not avro.io.conforms(self._schema, datum):
            raise avro.io.AvroTypeException("the datum does not fit the schema")
        self._log.write(json.dumps(plain(datum)) + "\n")

    def flush(self):
        self._log.flush()

    def close(self):
        self._log.write('"closed"\n')
        self._log.close()
        self._out.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
