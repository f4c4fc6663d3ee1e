from avro import lacking
from avro.io import _fits
from avro.schema import make

__getattr__ = lacking("fastavro.validation")


class ValidationError(Exception):
    pass


class ValidationErrorData(Exception):
    pass


def validate(datum, schema, field=None, raise_errors=True, strict=False, disable_tuple_notation=False):
    ok = _fits(make(schema), datum)
    if raise_errors and not ok:
        raise ValidationError(f"{datum!r} is not an example of the schema")
    return ok


def validate_many(records, schema, raise_errors=True, strict=False):
    return all([validate(r, schema, None, raise_errors, strict) for r in records])
