"""Stands in for the third-party fastavro package: the parts that scripts/ and likely rewrites of it use."""
from avro import lacking

from . import schema, validation
from .schema import parse_schema

validate = validation.validate
__getattr__ = lacking("fastavro")
