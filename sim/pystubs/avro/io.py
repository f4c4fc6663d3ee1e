import io
import struct

from . import Known, lacking

__getattr__ = lacking("avro.io")


class AvroTypeException(Exception):
    def __init__(self, expected, datum):
        super().__init__(f"The datum {datum!r} is not an example of the schema {expected}")


def validate(expected_schema, datum, raise_on_error=False):
    """Is the datum an instance of the schema? (argument order as in the avro package)"""
    ok = _fits(expected_schema, datum)
    if raise_on_error and not ok:
        raise AvroTypeException(expected_schema, datum)
    return ok


Validate = validate


def _fits(s, d):
    t = s.type
    if t == "null":
        return d is None
    if t == "boolean":
        return isinstance(d, bool)
    if t == "string":
        return isinstance(d, str)
    if t == "bytes":
        return isinstance(d, bytes)
    if t == "int":
        return isinstance(d, int) and -(1 << 31) <= d < 1 << 31
    if t == "long":
        return isinstance(d, int) and -(1 << 63) <= d < 1 << 63
    if t in ("float", "double"):
        return isinstance(d, (int, float))
    if t == "array":
        return isinstance(d, list) and all(_fits(s.items, x) for x in d)
    if t == "map":
        return isinstance(d, dict) and all(isinstance(k, str) and _fits(s.values, v) for k, v in d.items())
    if t == "union":
        return any(_fits(x, d) for x in s.schemas)
    if t == "record":
        return isinstance(d, dict) and all(_fits(f.type, d.get(f.name)) for f in s.fields)
    return False


class BinaryEncoder(Known):
    def __init__(self, writer):
        self.writer = writer

    def write(self, b):
        self.writer.write(b)

    def write_null(self, datum):
        pass

    def write_boolean(self, datum):
        self.write(b"\x01" if datum else b"\x00")

    def write_long(self, datum):
        n = (datum << 1) ^ (datum >> 63)
        out = bytearray()
        while n & ~0x7F:
            out.append(n & 0x7F | 0x80)
            n >>= 7
        out.append(n)
        self.write(bytes(out))

    write_int = write_long

    def write_float(self, datum):
        self.write(struct.pack("<f", datum))

    def write_double(self, datum):
        self.write(struct.pack("<d", datum))

    def write_bytes(self, datum):
        self.write_long(len(datum))
        self.write(datum)

    def write_utf8(self, datum):
        self.write_bytes(datum.encode("utf-8"))


class DatumWriter(Known):
    def __init__(self, writer_schema=None, writers_schema=None):
        self.writer_schema = writer_schema or writers_schema

    def write(self, datum, encoder):
        if not validate(self.writer_schema, datum):
            raise AvroTypeException(self.writer_schema, datum)
        self._write(self.writer_schema, datum, encoder)

    def _write(self, s, d, e):
        t = s.type
        if t == "string":
            e.write_utf8(d)
        elif t in ("null", "boolean", "int", "long", "float", "double", "bytes"):
            getattr(e, f"write_{t}")(d)
        elif t in ("array", "map"):
            if d:
                e.write_long(len(d))
                for x in d if t == "array" else d.items():
                    if t == "map":
                        e.write_utf8(x[0])
                        x = x[1]
                    self._write(s.items if t == "array" else s.values, x, e)
            e.write_long(0)
        elif t == "union":
            k = next(i for i, x in enumerate(s.schemas) if validate(x, d))
            e.write_long(k)
            self._write(s.schemas[k], d, e)
        elif t == "record":
            for f in s.fields:
                self._write(f.type, d.get(f.name), e)


def encode(schema, datum):
    b = io.BytesIO()
    DatumWriter(schema).write(datum, BinaryEncoder(b))
    return b.getvalue()
