"""Remote Settings, as far as the sign-off goes."""
import json
import os

import requests
import simdisk

from .exceptions import KintoException
from .patch_type import BasicPatch

FILE = os.path.join(os.environ["SIM_STORE"], ".kinto")


def error(kind):
    if kind == "conn":
        raise requests.exceptions.ConnectionError("connection to Kinto lost")
    if kind == "denied":
        raise KintoException("403 from Kinto")
    e = KintoException("503 from Kinto")
    e.again = True
    raise e


class Client:
    def __init__(self, *, server_url=None, session=None, auth=None, bucket="default", collection=None, retry=0, **kw):
        self.bucket, self.collection, self.retry, self.auth, self.url = bucket, collection, retry, auth, server_url

    def clone(self, **kw):
        return type(self)(**dict(dict(server_url=self.url, auth=self.auth, bucket=self.bucket, collection=self.collection, retry=self.retry), **kw))

    def _op(self, what, apply):
        for i in range(self.retry + 1):
            try:
                return simdisk.op(what, apply, error)
            except KintoException as e:
                if not getattr(e, "again", False) or i == self.retry:
                    raise

    def _all(self):
        with open(FILE) as f:
            return json.load(f)

    def _get(self, bucket, name):
        d = self._all()
        a = (self.auth.username, self.auth.password) if hasattr(self.auth, "username") else tuple(self.auth or ())
        if list(a) != d["auth"]:
            raise KintoException("401 from Kinto")
        if self.url != d["url"]:
            raise requests.exceptions.ConnectionError("no such server")
        if bucket != d["bucket"] or name not in d["collections"]:
            raise KintoException("404 no collection %s/%s" % (bucket, name))
        return d, d["collections"][name]

    def get_collection(self, *, id=None, bucket=None, **kw):
        n = id or self.collection
        return self._op("kinto-get %s" % n, lambda: {"data": dict(self._get(bucket or self.bucket, n)[1])})

    def patch_collection(self, *, id=None, collection=None, bucket=None, changes=None, data=None, original=None, permissions=None, safe=True, if_match=None, **kw):
        n = id or collection or (original or {}).get("id") or self.collection
        if data is None and changes is not None:
            data = changes.data if hasattr(changes, "data") else changes

        def f():
            d, c = self._get(bucket or self.bucket, n)
            want = if_match or (original or {}).get("last_modified")
            if safe and want is not None and want != c["last_modified"]:
                raise KintoException("412 from Kinto")
            c.update(data or {})
            c["last_modified"] += 1
            with open(FILE, "w") as g:
                json.dump(d, g)
            return {"data": dict(c)}

        return self._op("kinto-patch %s %s" % (n, (data or {}).get("status")), f)

    update_collection = patch_collection
