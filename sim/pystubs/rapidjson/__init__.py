"""Stands in for the third-party python-rapidjson package; knows the keywords that the simulator's schemas use."""
import json

from avro import lacking, unknown


class JSONDecodeError(ValueError):
    pass


class ValidationError(ValueError):
    pass


_KEYWORDS = {"$schema", "$id", "title", "description", "type", "properties", "required", "items", "additionalProperties", "enum"}
_TYPES = {
    "null": lambda d: d is None,
    "boolean": lambda d: isinstance(d, bool),
    "integer": lambda d: isinstance(d, int) and not isinstance(d, bool),
    "number": lambda d: isinstance(d, (int, float)) and not isinstance(d, bool),
    "string": lambda d: isinstance(d, str),
    "array": lambda d: isinstance(d, list),
    "object": lambda d: isinstance(d, dict),
}


def _parse(text):
    if not isinstance(text, (str, bytes)):
        raise TypeError("a string or a UTF-8 encoded bytes is required")
    try:
        return json.loads(text)
    except ValueError as e:
        raise JSONDecodeError(str(e)) from None


def _same(a, b):
    return type(a) is type(b) and a == b


def _fits(d, s):
    if s is True or s == {}:
        return True
    if s is False:
        return False
    for k in s:
        if k not in _KEYWORDS:
            unknown("rapidjson keyword " + k)
    t = s.get("type")
    if t is not None and not any(_TYPES[x](d) for x in ([t] if isinstance(t, str) else t)):
        return False
    if "enum" in s and not any(_same(d, x) for x in s["enum"]):
        return False
    if isinstance(d, dict):
        if any(r not in d for r in s.get("required", [])):
            return False
        props = s.get("properties", {})
        for k, v in d.items():
            if not _fits(v, props[k] if k in props else s.get("additionalProperties", True)):
                return False
    if isinstance(d, list):
        return all(_fits(v, s.get("items", True)) for v in d)
    return True


class Validator:
    def __init__(self, json_schema):
        self._schema = _parse(json_schema)

    def __call__(self, text):
        if not _fits(_parse(text), self._schema):
            raise ValidationError("type", "#", "#")


def loads(text, **_):
    return _parse(text)


load = lambda f, **_: loads(f.read())
dumps = json.dumps
dump = json.dump
__getattr__ = lacking("rapidjson")
