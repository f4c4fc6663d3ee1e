"""Stands in for the third-party avro package: the parts that scripts/ and likely rewrites of it use.

Asking a stand-in for anything else leaves a mark, and the run is then not judged."""
import os
import sys


def unknown(what):
    with open(os.path.join(os.environ["JST_BATCH"], "stub-lacks"), "a") as f:
        f.write(what + "\n")


def lacking(module):
    def __getattr__(name):
        if not name.startswith("__") and name not in ("io", "schema", "datafile", "validation"):
            unknown(f"{module}.{name}")
        raise AttributeError(name)

    return __getattr__


class Known:
    def __getattr__(self, name):
        if not name.startswith("_"):
            unknown(f"{type(self).__name__}.{name}")
        raise AttributeError(name)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] in ("avro", "fastavro", "boto3", "botocore", "rapidjson"):
            unknown(name)


sys.meta_path.append(_Finder)
__getattr__ = lacking("avro")
