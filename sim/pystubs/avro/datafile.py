import io
import json

from . import Known, lacking
from . import io as avro_io

__getattr__ = lacking("avro.datafile")

SYNC_INTERVAL = 256
SYNC_MARKER = bytes(range(16))


class DataFileException(Exception):
    pass


class DataFileWriter(Known):
    """An Avro object container file, without compression."""

    def __init__(self, writer, datum_writer, writer_schema=None, codec="null", writers_schema=None):
        self._out = writer
        self._datum_writer = datum_writer
        schema = writer_schema or writers_schema
        datum_writer.writer_schema = schema
        self._buffer = io.BytesIO()
        self._encoder = avro_io.BinaryEncoder(self._buffer)
        self.block_count = 0
        e = avro_io.BinaryEncoder(writer)
        e.write(b"Obj\x01")
        meta = {"avro.codec": b"null", "avro.schema": json.dumps(schema.to_json()).encode()}
        e.write_long(len(meta))
        for k, v in meta.items():
            e.write_utf8(k)
            e.write_bytes(v)
        e.write_long(0)
        e.write(SYNC_MARKER)

    writer = property(lambda self: self._out)

    def append(self, datum):
        self._datum_writer.write(datum, self._encoder)
        self.block_count += 1
        if self._buffer.tell() >= SYNC_INTERVAL:
            self._write_block()

    def _write_block(self):
        if self.block_count == 0:
            return
        e = avro_io.BinaryEncoder(self._out)
        e.write_long(self.block_count)
        e.write_bytes(self._buffer.getvalue())
        e.write(SYNC_MARKER)
        self._buffer.seek(0)
        self._buffer.truncate()
        self.block_count = 0

    def sync(self):
        self._write_block()
        return self._out.tell()

    def flush(self):
        self._write_block()
        self._out.flush()

    def close(self):
        self.flush()
        self._out.close()

    def __enter__(self):
        return self

    def __exit__(self, kind, value, traceback):
        if kind is None:
            self.close()
