import json

from . import Known, lacking

__getattr__ = lacking("avro.schema")


class SchemaParseException(Exception):
    pass


AvroException = SchemaParseException
PRIMITIVES = ("null", "boolean", "int", "long", "float", "double", "bytes", "string")


class Schema(Known):
    def __init__(self, type_, source):
        self.type = type_
        self._source = source

    def to_json(self, names=None):
        return self._source

    def __str__(self):
        return json.dumps(self._source)


class PrimitiveSchema(Schema):
    fullname = property(lambda self: self.type)


class ArraySchema(Schema):
    items = None


class MapSchema(Schema):
    values = None


class UnionSchema(Schema):
    schemas = ()


class Field(Known):
    def __init__(self, name, type_, source):
        self.name = name
        self.type = type_
        self.has_default = "default" in source
        self.default = source.get("default")
        self.doc = source.get("doc")

    def to_json(self, names=None):
        return {"name": self.name, "type": self.type.to_json()}


class RecordSchema(Schema):
    fields = ()

    @property
    def field_map(self):
        return {f.name: f for f in self.fields}

    fields_dict = field_map


def make(source):
    if isinstance(source, list):
        s = UnionSchema("union", source)
        s.schemas = [make(x) for x in source]
        return s
    if isinstance(source, str):
        if source not in PRIMITIVES:
            raise SchemaParseException(f"unknown type {source}")
        return PrimitiveSchema(source, source)
    if not isinstance(source, dict):
        raise SchemaParseException(f"not a schema: {source!r}")
    kind = source.get("type")
    if kind in PRIMITIVES:
        return PrimitiveSchema(kind, source)
    if kind == "array":
        s = ArraySchema(kind, source)
        s.items = make(source["items"])
        return s
    if kind == "map":
        s = MapSchema(kind, source)
        s.values = make(source["values"])
        return s
    if kind == "record":
        s = RecordSchema(kind, source)
        s.name = source["name"]
        s.namespace = source.get("namespace")
        s.fullname = f"{s.namespace}.{s.name}" if s.namespace else s.name
        s.fields = [Field(f["name"], make(f["type"]), f) for f in source["fields"]]
        return s
    if isinstance(kind, (dict, list)):
        return make(kind)
    raise SchemaParseException(f"unknown type {kind!r}")


def Parse(text, *args, **kwargs):
    try:
        source = json.loads(text)
    except ValueError as e:
        raise SchemaParseException(str(e)) from e
    return make(source)


parse = Parse
