from avro import lacking
from avro.schema import SchemaParseException, make

__getattr__ = lacking("fastavro.schema")


def parse_schema(schema, *args, **kwargs):
    make(schema)
    return schema
