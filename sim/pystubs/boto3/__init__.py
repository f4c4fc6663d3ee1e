"""Stands in for the third-party boto3 package: S3 over the objects in ../s3.json, with the faults listed there."""
import json
import os

from avro import Known, lacking, unknown
from botocore.exceptions import ClientError, IncompleteReadError

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "s3.json")) as _f:
    _world = json.load(_f)
_seen = {}


def _fault(op):
    """What happens to this call: faults are [operation, which call, how]."""
    k = _seen[op] = _seen.get(op, -1) + 1
    for o, at, how in _world["faults"]:
        if o == op and at == k:
            with open(os.path.join(os.environ["JST_BATCH"], "fired"), "a") as f:
                f.write(f"{op.split(':')[0]} {how}\n")
            return how
    return None


def _error(op, code="InternalError"):
    return ClientError({"Error": {"Code": code, "Message": "We encountered an internal error."}}, op)


class StreamingBody(Known):
    def __init__(self, data, torn):
        self._data = data
        self._at = 0
        self._torn = torn

    def read(self, amt=None):
        end = len(self._data) if amt is None else min(len(self._data), self._at + amt)
        if self._torn is not None and end > self._torn:
            if amt is not None and self._at < self._torn:
                end = self._torn
            else:
                raise IncompleteReadError(actual_bytes=self._torn, expected_bytes=len(self._data))
        out = self._data[self._at : end]
        self._at = end
        return out

    def iter_chunks(self, chunk_size=1024):
        while True:
            c = self.read(chunk_size)
            if c == b"":
                return
            yield c

    __iter__ = iter_chunks

    def iter_lines(self, chunk_size=1024, keepends=False):
        pending = b""
        for chunk in self.iter_chunks(chunk_size):
            lines = (pending + chunk).splitlines(True)
            for line in lines[:-1]:
                yield line if keepends else line.splitlines()[0]
            pending = lines[-1]
        if pending:
            yield pending if keepends else pending.splitlines()[0]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


class _Exceptions(Known):
    ClientError = ClientError
    NoSuchKey = ClientError
    NoSuchBucket = ClientError


class _Paginator(Known):
    def __init__(self, client, name):
        self._client, self._name = client, name

    def paginate(self, **kw):
        conf = kw.pop("PaginationConfig", {})
        if conf:
            unknown("PaginationConfig")
        while True:
            page = getattr(self._client, self._name)(**kw)
            yield page
            if not page["IsTruncated"]:
                return
            if self._name == "list_objects":
                kw["Marker"] = page["Contents"][-1]["Key"]
            else:
                kw["ContinuationToken"] = page["NextContinuationToken"]


class _S3(Known):
    exceptions = _Exceptions()

    def _list(self, op, Bucket, Prefix, after, MaxKeys):
        if _fault("list"):
            raise _error(op)
        if Bucket != _world["bucket"]:
            raise _error(op, "NoSuchBucket")
        keys = sorted((k for k in _world["objects"] if k.startswith(Prefix) and k > after), key=lambda k: k.encode())
        n = min(MaxKeys, _world["page"])
        page = {"IsTruncated": len(keys) > n, "MaxKeys": MaxKeys, "Name": Bucket, "Prefix": Prefix}
        if keys:
            page["Contents"] = [{"Key": k, "Size": len(_world["objects"][k].encode()), "ETag": '"0"'} for k in keys[:n]]
        return page

    def list_objects(self, *, Bucket, Prefix="", Marker="", MaxKeys=1000):
        page = self._list("ListObjects", Bucket, Prefix, Marker, MaxKeys)
        page["Marker"] = Marker
        return page

    def list_objects_v2(self, *, Bucket, Prefix="", ContinuationToken="", StartAfter="", MaxKeys=1000):
        page = self._list("ListObjectsV2", Bucket, Prefix, ContinuationToken or StartAfter, MaxKeys)
        page["KeyCount"] = len(page.get("Contents", []))
        if page["IsTruncated"]:
            page["NextContinuationToken"] = page["Contents"][-1]["Key"]
        return page

    def get_paginator(self, name):
        if name not in ("list_objects", "list_objects_v2"):
            unknown("paginator " + name)
        return _Paginator(self, name)

    def get_object(self, *, Bucket, Key):
        how = _fault("get:" + Key)
        if how == "fail":
            raise _error("GetObject")
        if Bucket != _world["bucket"]:
            raise _error("GetObject", "NoSuchBucket")
        if Key not in _world["objects"]:
            raise _error("GetObject", "NoSuchKey")
        data = _world["objects"][Key].encode()
        torn = min(int(how.split(":")[1]), max(len(data) - 1, 0)) if how else None
        return {"Body": StreamingBody(data, torn), "ContentLength": len(data)}


def client(service, *_, **__):
    if service != "s3":
        unknown("boto3.client " + service)
    return _S3()


class session(Known):
    class Session(Known):
        client = staticmethod(client)


Session = session.Session
__getattr__ = lacking("boto3")
