"""Stand-in for boto3: one bucket whose objects are in a JSON file.

A listing holds no more than JSTMON_PAGE objects, as it does with the service."""
import io
import json
import os


class _Pages:
    def __init__(self, list_page, token, kw):
        self._list, self._token, self._kw = list_page, token, kw

    def __iter__(self):
        after = None
        while True:
            page = self._list(**self._kw, **({self._token: after} if after else {}))
            yield page
            if not page["IsTruncated"]:
                return
            after = page["Contents"][-1]["Key"]

    def build_full_result(self):
        whole = {}
        for page in self:
            if "Contents" in page:
                whole.setdefault("Contents", []).extend(page["Contents"])
        return whole

    def search(self, expression):
        for page in self:
            for entry in page.get("Contents", []):
                if expression == "Contents[].Key":
                    yield entry["Key"]
                elif expression in ("Contents", "Contents[]"):
                    yield entry
                else:
                    raise ValueError(expression)


class _Paginator:
    def __init__(self, list_page, token):
        self._list, self._token = list_page, token

    def paginate(self, **kw):
        return _Pages(self._list, self._token, kw)


class _S3:
    def __init__(self):
        with open(os.environ["JSTMON_S3"]) as f:
            self._objects = dict(json.load(f))
        self._page = int(os.environ.get("JSTMON_PAGE", "1000"))

    def _keys(self, Bucket, Prefix, after, limit):
        if Bucket != "telemetry-parquet":
            raise KeyError(Bucket)
        # in the order of the UTF-8 bytes
        keys = sorted((k for k in self._objects if k.startswith(Prefix)), key=lambda k: k.encode())
        keys = [k for k in keys if not after or k.encode() > after.encode()]
        limit = min(limit, self._page)
        page = {"IsTruncated": len(keys) > limit}
        if keys:
            page["Contents"] = [{"Key": k, "Size": len(self._objects[k])} for k in keys[:limit]]
        return page

    def list_objects(self, Bucket, Prefix="", Marker="", MaxKeys=1000):
        return self._keys(Bucket, Prefix, Marker, MaxKeys)

    def list_objects_v2(self, Bucket, Prefix="", ContinuationToken="", StartAfter="", MaxKeys=1000):
        page = self._keys(Bucket, Prefix, ContinuationToken or StartAfter, MaxKeys)
        page["KeyCount"] = len(page.get("Contents", []))
        if page["IsTruncated"]:
            page["NextContinuationToken"] = page["Contents"][-1]["Key"]
        return page

    def get_paginator(self, name):
        if name == "list_objects":
            return _Paginator(self.list_objects, "Marker")
        if name == "list_objects_v2":
            return _Paginator(self.list_objects_v2, "ContinuationToken")
        raise ValueError(name)

    def get_object(self, Bucket, Key):
        if Bucket != "telemetry-parquet":
            raise KeyError(Bucket)
        return {"Body": io.BytesIO(self._objects[Key].encode("utf-8"))}


def client(name, *args, **kw):
    assert name == "s3"
    return _S3()
