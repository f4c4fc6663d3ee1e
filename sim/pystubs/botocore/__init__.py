"""Stands in for the third-party botocore package."""
from avro import lacking

from . import config, exceptions

__getattr__ = lacking("botocore")
