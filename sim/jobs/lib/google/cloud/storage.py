"""Google Cloud Storage, as far as the jobs go."""
import json
import os
import sys

import requests
import simdisk
from google.api_core import exceptions
from google.auth import DefaultCredentialsError


def error(kind):
    if kind == "conn":
        raise requests.exceptions.ConnectionError("connection to GCS lost")
    if kind == "denied":
        raise exceptions.Forbidden("403 from GCS")
    raise exceptions.ServiceUnavailable("503 from GCS")


def exists(bucket):
    if not os.path.isdir(simdisk.path(bucket)):
        raise exceptions.NotFound("404 no bucket " + bucket)


class Blob:
    def __init__(self, name, bucket, **kw):
        self.name, self.bucket = name, bucket

    @property
    def public_url(self):
        return "https://storage.googleapis.com/%s/%s" % (self.bucket.name, self.name)

    def _op(self, what, apply):
        def f():
            exists(self.bucket.name)
            return apply()

        return simdisk.op("%s %s" % (what, self.name), f, error)

    def exists(self, *a, **k):
        return self._op("stat", lambda: simdisk.get(self.bucket.name, self.name) is not None)

    def _get(self):
        d = simdisk.get(self.bucket.name, self.name)
        if d is None:
            raise exceptions.NotFound("404 no object " + self.name)
        return d

    def download_as_bytes(self, *a, **k):
        return self._op("get", self._get)

    download_as_string = download_as_bytes

    def download_as_text(self, *a, **k):
        return self.download_as_bytes().decode()

    def download_to_file(self, f, *a, **k):
        def half(kind):
            try:
                d = self._get()
                f.write(d[: len(d) // 2])
            except exceptions.NotFound:
                pass
            error(kind)

        f.write(simdisk.op("get %s" % self.name, self._get, half))

    def download_to_filename(self, name, *a, **k):
        with open(name, "wb") as f:
            self.download_to_file(f)

    def _put(self, data):
        self._op("put", lambda: simdisk.put(self.bucket.name, self.name, data))

    def upload_from_string(self, data, *a, **k):
        self._put(data.encode() if isinstance(data, str) else data)

    def upload_from_filename(self, name, *a, **k):
        with open(name, "rb") as f:
            self._put(f.read())

    def upload_from_file(self, f, *a, **k):
        self._put(f.read())

    def delete(self, *a, **k):
        def f():
            self._get()
            os.unlink(simdisk.path(self.bucket.name, self.name))

        self._op("delete", f)


class Bucket:
    def __init__(self, client=None, name=None):
        self.client, self.name = client, name

    def blob(self, name, **k):
        return Blob(name, self)

    def get_blob(self, name, **k):
        b = Blob(name, self)
        return b if b.exists() else None

    def list_blobs(self, prefix="", **k):
        def f():
            exists(self.name)
            return [Blob(n, self) for n in simdisk.names(self.name) if n.startswith(prefix or "")]

        return iter(simdisk.op("list", f, error))

    def delete_blob(self, name, **k):
        Blob(name, self).delete()

    def copy_blob(self, blob, bucket, new_name=None, **k):
        Blob(new_name or blob.name, bucket)._put(blob._get())


class Client:
    def __init__(self, *a, **k):
        p = os.environ.get("GOOGLE_APPLICATION_CREDENTIALS", "")
        if p.startswith("/tmp/"):
            p = os.environ["SIM_TMP"] + p[4:]
        try:
            with open(p) as f:
                json.load(f)["simulation"]
        except (OSError, ValueError, KeyError) as e:
            raise DefaultCredentialsError("no usable credentials in %s: %s" % (p, e))
        self._connection = self
        self.api_request = None

    def get_bucket(self, name, *a, **k):
        simdisk.op("bucket", lambda: exists(name), error)
        return Bucket(self, name)

    def lookup_bucket(self, name, *a, **k):
        try:
            return self.get_bucket(name)
        except exceptions.NotFound:
            return None

    def bucket(self, name, *a, **k):
        return Bucket(self, name)

    def list_blobs(self, bucket, prefix="", **k):
        return Bucket(self, bucket if isinstance(bucket, str) else bucket.name).list_blobs(prefix=prefix)


blob = sys.modules[__name__]
bucket = sys.modules[__name__]
client = sys.modules[__name__]
