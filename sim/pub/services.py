"""The outside world of the publishing half: Remote Settings (Kinto), Google
Cloud Storage, the CT log list and the attachment CDN, with the client modules
that the real code imports (kinto_http, google.cloud, requests, ...)."""
import hashlib
import json
import sys
import time
import types

from core import Raise, SimCrash, clone, current
import x509stub

SIM = None  # the running simulation
WORLD = None


# ---------------------------------------------------------------- errors
class KintoException(Exception):
    def __init__(self, message=None, exception=None):
        super().__init__(message)
        self.request = None
        self.response = None
        self.message = message
        if exception is not None:
            self.request = getattr(exception, "request", None)
            self.response = getattr(exception, "response", None)


class BucketNotFound(KintoException):
    pass


class CollectionNotFound(KintoException):
    pass


class RequestException(IOError):
    pass


class ReqConnectionError(RequestException):
    pass


class ReqTimeout(RequestException):
    pass


class HTTPError(RequestException):
    def __init__(self, *a, response=None):
        super().__init__(*a)
        self.response = response


class GoogleAPICallError(Exception):
    code = 500


class NotFound(GoogleAPICallError):
    code = 404


class ServiceUnavailable(GoogleAPICallError):
    code = 503


class InternalServerError(GoogleAPICallError):
    pass


class TooManyRequests(GoogleAPICallError):
    code = 429


class PreconditionFailed(GoogleAPICallError):
    code = 412


class RetryError(Exception):
    def __init__(self, message, cause=None):
        super().__init__(message)
        self.cause = cause


def kerr(what):
    def error(kind):
        if kind == "conn":
            raise ReqConnectionError("connection to Kinto lost (%s)" % what)
        raise KintoException("503 from Kinto (%s)" % what)

    return error


def gerr(what):
    def error(kind):
        if kind == "conn":
            raise ReqConnectionError("connection to GCS lost (%s)" % what)
        raise ServiceUnavailable("503 from GCS (%s)" % what)

    return error


# ---------------------------------------------------------------- Kinto
class Kinto:
    def __init__(self, sim, rng):
        self.sim, self.rng = sim, rng
        self.cols = {}
        self.clock = 0
        self.blobs = {}
        self.nid = 0
        self.on_status = lambda *a: None
        self.on_write = lambda *a: None
        self.enforce_review = True
        for n in ("cert-revocations", "intermediates", "ct-logs"):
            self.cols[n] = {"records": {}, "meta": {"id": n, "status": "signed", "last_modified": self.tick()}, "signed": []}

    def tick(self):
        self.clock = max(self.clock + 1, int(self.sim.now * 1000))
        return self.clock

    def newid(self):
        self.nid += 1
        h = hashlib.sha256(b"%d-%d" % (self.nid, self.rng.randrange(1 << 30))).hexdigest()
        return "%s-%s-4%s-a%s-%s" % (h[:8], h[8:12], h[13:16], h[17:20], h[20:32])

    def col(self, name):
        return self.cols.get(name)

    def set_status(self, name, status, who):
        m = self.cols[name]["meta"]
        m["status"] = status
        m["last_modified"] = self.tick()
        self.on_status(who, name, status)

    def edited(self, name, who):
        if self.cols[name]["meta"]["status"] != "work-in-progress":
            self.set_status(name, "work-in-progress", who)

    def write(self, name, who, kind, rid, new):
        c = self.cols[name]
        old = c["records"].get(rid)
        if new is None:
            c["records"].pop(rid, None)
        else:
            new = clone(new)
            new["id"] = rid
            new["last_modified"] = self.tick()
            c["records"][rid] = new
        self.on_write(who, name, kind, old, new)
        self.edited(name, who)
        return clone(new)

    def records(self, name):
        r = sorted(self.cols[name]["records"].values(), key=lambda x: -x["last_modified"])
        return clone(r)

    def attach(self, name, who, rid, filename, data, mime):
        h = hashlib.sha256(data).hexdigest()
        loc = "security-state-staging/%s/%s" % (name, self.newid())
        self.blobs[loc] = bytes(data)
        rec = self.cols[name]["records"].get(rid)
        status = 200 if rec is not None else 201
        rec = dict(rec or {})
        rec["attachment"] = {"filename": filename, "location": loc, "hash": h, "size": len(data), "mimetype": mime}
        self.write(name, who, "attach", rid, rec)
        return status


class Client:
    def __init__(self, *, server_url=None, session=None, auth=None, bucket="default", collection=None, retry=0, retry_after=None, ignore_batch_4xx=False, headers=None, dry_mode=False, **kw):
        self.session = types.SimpleNamespace(server_url=server_url, auth=auth)
        self.bucket_name = bucket
        self.collection_name = collection
        self.k = WORLD.kinto

    def clone(self, **kw):
        return self

    def _c(self, collection):
        name = collection or self.collection_name
        if self.k.col(name) is None:
            raise KintoException("403 no such collection %s" % name)
        return name

    def _op(self, what, apply, write=False):
        a = current()
        if write:
            a.extra["writes"] = a.extra.get("writes", 0) + 1
        return SIM.op("kinto", what, apply, kerr(what))

    def server_info(self):
        return self._op("info", lambda: {"capabilities": {"attachments": {"base_url": "https://cdn.sim/"}, "signer": {}}})

    def get_records(self, *, collection=None, bucket=None, **kw):
        n = self._c(collection)
        return self._op("list %s" % n, lambda: self.k.records(n))

    def get_paginated_records(self, **kw):
        yield self.get_records(**kw)

    def get_record(self, *, id, collection=None, bucket=None):
        n = self._c(collection)

        def f():
            r = self.k.cols[n]["records"].get(id)
            return {"data": clone(r), "permissions": {}} if r else Raise(KintoException("404 no record"))

        return self._op("get %s" % n, f)

    def create_record(self, *, id=None, bucket=None, collection=None, data=None, permissions=None, safe=True, if_not_exists=False):
        n = self._c(collection)
        a = current()
        data = clone(data or {})
        json.dumps(data)

        def f():
            rid = id or data.get("id") or self.k.newid()
            if rid in self.k.cols[n]["records"] and safe:
                return Raise(KintoException("412 record exists"))
            return {"data": self.k.write(n, a, "create", rid, data), "permissions": permissions}

        return self._op("create %s" % n, f, True)

    def update_record(self, *, id=None, collection=None, permissions=None, bucket=None, data=None, safe=True, if_match=None):
        n = self._c(collection)
        a = current()
        data = clone(data or {})
        json.dumps(data)
        rid = id or data.get("id")

        match = data.get("last_modified", if_match) if safe else None

        def f():
            old = self.k.cols[n]["records"].get(rid)
            if match is not None and (old is None or old["last_modified"] != match):
                return Raise(KintoException("412 record was modified"))
            return {"data": self.k.write(n, a, "update", rid, data), "permissions": permissions}

        return self._op("update %s" % n, f, True)

    def patch_record(self, *, id=None, collection=None, changes=None, original=None, data=None, permissions=None, bucket=None, safe=True, if_match=None):
        n = self._c(collection)
        a = current()
        d = data if data is not None else (changes.data if changes else {})
        rid = id or (original or {}).get("id")

        def f():
            old = self.k.cols[n]["records"].get(rid)
            if old is None:
                return Raise(KintoException("404 no record"))
            m = if_match or (original or {}).get("last_modified")
            if safe and m is not None and old["last_modified"] != m:
                return Raise(KintoException("412 record was modified"))
            return {"data": self.k.write(n, a, "update", rid, {**old, **d})}

        return self._op("patch %s" % n, f, True)

    def delete_record(self, *, id, collection=None, bucket=None, safe=True, if_match=None, if_exists=False):
        n = self._c(collection)
        a = current()

        def f():
            if id not in self.k.cols[n]["records"]:
                return None if if_exists else Raise(KintoException("404 no record %s" % id))
            if safe and if_match is not None and self.k.cols[n]["records"][id]["last_modified"] != if_match:
                return Raise(KintoException("412 record was modified"))
            self.k.write(n, a, "delete", id, None)
            return {"id": id, "deleted": True}

        return self._op("delete %s" % n, f, True)

    def delete_records(self, *, collection=None, bucket=None, safe=True, if_match=None):
        n = self._c(collection)
        a = current()

        def f():
            for rid in list(self.k.cols[n]["records"]):
                self.k.write(n, a, "delete", rid, None)
            return []

        return self._op("deleteall %s" % n, f, True)

    def get_collection(self, *, id=None, bucket=None):
        n = self._c(id)
        return self._op("status %s" % n, lambda: {"data": dict(self.k.cols[n]["meta"]), "permissions": {}})

    def patch_collection(self, *, id=None, bucket=None, changes=None, data=None, original=None, permissions=None, safe=True, if_match=None):
        n = self._c(id or (original or {}).get("id"))
        a = current()
        d = data if data is not None else (changes.data if changes else {})
        match = if_match or ((original or {}).get("last_modified") if safe else None)

        def f():
            m = self.k.cols[n]["meta"]
            if match is not None and match != m["last_modified"]:
                return Raise(KintoException("412 collection was modified"))
            st = d.get("status")
            if st == "to-sign":
                a.extra["signed-from"] = m["status"]
                if m["status"] != "to-review" and self.k.enforce_review:
                    return Raise(KintoException("403 not reviewed"))
            if st:
                self.k.set_status(n, st, a)
                if st == "to-sign":
                    self.k.cols[n]["signed"].append(self.k.records(n))
                    self.k.set_status(n, "signed", a)
            return {"data": dict(m)}

        return self._op("status! %s %s" % (n, d.get("status")), f, True)

    update_collection = patch_collection


class BasicPatch:
    def __init__(self, data=None, permissions=None):
        self.data = data or {}
        self.permissions = permissions


# ---------------------------------------------------------------- requests
class Response:
    def __init__(self, status, body=b""):
        self.status_code = status
        self.content = body
        self.headers = {}
        self.reason = str(status)

    @property
    def ok(self):
        return self.status_code < 400

    @property
    def text(self):
        return self.content.decode("utf-8", "replace")

    def json(self):
        return json.loads(self.content)

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError("%d" % self.status_code, response=self)


def rerr(what):
    def error(kind):
        if kind == "error":
            return Response(503, b"<html>try again</html>")
        raise ReqConnectionError("connection lost (%s)" % what)

    return error


def req_get(url, **kw):
    if "log_list.json" in url:
        return SIM.op("loglist", "GET log_list", lambda: Response(200, WORLD.loglist_body()), rerr("log list"))
    if url.startswith("https://cdn.sim/"):
        loc = url[len("https://cdn.sim/") :]

        def f():
            b = WORLD.kinto.blobs.get(loc)
            return Response(404, b"gone") if b is None else Response(200, b)

        return SIM.op("cdn", "GET attachment", f, rerr("attachment"))
    raise ReqConnectionError("no such host: %s" % url)


def req_post(url, files=None, auth=None, data=None, **kw):
    a = current()
    parts = url.split("?")[0].rstrip("/").split("/")
    if parts[-1] != "attachment":
        raise ReqConnectionError("no such endpoint: %s" % url)
    col, rid = parts[-4], parts[-2]
    f = files.get("attachment") if isinstance(files, dict) else dict(files)["attachment"]
    name, content, mime = f[0], f[1], (f[2] if len(f) > 2 else "application/octet-stream")
    if hasattr(content, "read"):
        content = content.read()
    if isinstance(content, str):
        content = content.encode()
    a.extra["writes"] = a.extra.get("writes", 0) + 1

    def g():
        if WORLD.kinto.col(col) is None:
            return Response(403, b"no collection")
        return Response(WORLD.kinto.attach(col, a, rid, name, content, mime), b"{}")

    return SIM.op("kinto", "attach %s" % col, g, rerr("attachment"), slow=2.0)


# ---------------------------------------------------------------- GCS
class GCS:
    def __init__(self, sim):
        self.sim = sim
        self.objects = {}
        self.on_put = lambda *a: None

    def put(self, who, name, data):
        old = self.objects.get(name)
        self.objects[name] = bytes(data)
        self.on_put(who, name, old, bytes(data))

    def prefixes(self):
        return sorted({n.split("/")[0] + "/" for n in self.objects if "/" in n})


def path(name):
    return str(name)


class Blob:
    def __init__(self, name, bucket, **kw):
        self.name, self.bucket = path(name), bucket
        self.public_url = "https://storage.sim/" + self.name

    def _op(self, what, apply, slow=1.0, err=None):
        return SIM.op("gcs", "%s %s" % (what, self.name), apply, err or gerr(what), slow=slow)

    def exists(self, *a, **k):
        return self._op("exists", lambda: self.name in WORLD.gcs.objects)

    def download_as_bytes(self, *a, **k):
        def f():
            b = WORLD.gcs.objects.get(self.name)
            return Raise(NotFound("404 " + self.name)) if b is None else b

        return self._op("get", f, slow=3.0)

    download_as_string = download_as_bytes

    def download_as_text(self, *a, **k):
        return self.download_as_bytes().decode()

    def download_to_file(self, file_obj, *a, **k):
        got = []

        def f():
            b = WORLD.gcs.objects.get(self.name)
            if b is None:
                return Raise(NotFound("404 " + self.name))
            got.append(b)
            return b

        def err(kind):
            if kind == "lost" and got:
                file_obj.write(got[0][: len(got[0]) // 2])
            return gerr("get")(kind)

        file_obj.write(self._op("get", f, 3.0, err))

    def download_to_filename(self, filename, *a, **k):
        with open(filename, "wb") as f:
            self.download_to_file(f)

    def upload_from_string(self, data, *a, **k):
        who = current()
        if isinstance(data, str):
            data = data.encode()
        return self._op("put", lambda: WORLD.gcs.put(who, self.name, data), 3.0)

    def upload_from_filename(self, filename, *a, **k):
        with open(filename, "rb") as f:
            return self.upload_from_string(f.read())

    def upload_from_file(self, f, *a, **k):
        return self.upload_from_string(f.read())

    def delete(self, *a, **k):
        return self._op("delete", lambda: WORLD.gcs.objects.pop(self.name, None) and None)


class Bucket:
    def __init__(self, client=None, name=None):
        self.client, self.name = client, name

    def blob(self, name, **k):
        return Blob(name, self)

    def get_blob(self, name, **k):
        b = Blob(name, self)
        return b if b.exists() else None

    def list_blobs(self, prefix="", **k):
        names = SIM.op("gcs", "list " + (prefix or ""), lambda: sorted(n for n in WORLD.gcs.objects if n.startswith(prefix or "")), gerr("list"))
        return [Blob(n, self) for n in names]


class StorageClient:
    def __init__(self, *a, **k):
        self._connection = types.SimpleNamespace(api_request=None)

    def get_bucket(self, name, *a, **k):
        return SIM.op("gcs", "bucket", lambda: Bucket(self, name), gerr("bucket"))

    def bucket(self, name, *a, **k):
        return Bucket(self, name)

    def list_blobs(self, bucket, prefix="", **k):
        return Bucket(self, bucket).list_blobs(prefix)


class HTTPIterator:
    def __init__(self, client=None, api_request=None, path=None, items_key=None, item_to_value=None, extra_params=None, **k):
        self.item_to_value = item_to_value
        self.prefix = (extra_params or {}).get("prefix", "")

    def __iter__(self):
        def f():
            if self.prefix:
                n = len(self.prefix)
                return sorted({self.prefix + x[n:].split("/")[0] + "/" for x in WORLD.gcs.objects if x.startswith(self.prefix) and "/" in x[n:]})
            return WORLD.gcs.prefixes()

        for x in SIM.op("gcs", "list", f, gerr("list")):
            yield self.item_to_value(self, x)


def transient(e):
    return isinstance(e, (ServiceUnavailable, InternalServerError, TooManyRequests, ReqConnectionError))


class Retry:
    def __init__(self, predicate=transient, initial=1.0, maximum=60.0, multiplier=2.0, timeout=120.0, deadline=None, on_error=None, **k):
        self.predicate, self.initial, self.maximum, self.multiplier = predicate, initial, maximum, multiplier
        self.deadline = deadline if deadline is not None else timeout

    def __call__(self, fn, on_error=None):
        def wrapped(*a, **k):
            end = SIM.now + self.deadline
            delay = self.initial
            while True:
                try:
                    return fn(*a, **k)
                except Exception as e:
                    if not self.predicate(e):
                        raise
                    if SIM.now + delay > end:
                        raise RetryError("deadline of %g s exceeded" % self.deadline, e) from e
                SIM.sleep(delay)
                delay = min(delay * self.multiplier, self.maximum)

        return wrapped


# ---------------------------------------------------------------- modules
def module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    return m


def config(key, default=None, cast=None):
    over = {
        "KINTO_RW_SERVER_URL": "https://kinto.sim/v1/",
        "KINTO_RO_SERVER_URL": "https://kinto-ro.sim/v1/",
        "KINTO_AUTH_USER": "user",
        "KINTO_AUTH_PASSWORD": "secret",
        "KINTO_BUCKET": "security-state-staging",
        "KINTO_CRLITE_COLLECTION": "cert-revocations",
        "KINTO_INTERMEDIATES_COLLECTION": "intermediates",
        "KINTO_CTLOGS_COLLECTION": "ct-logs",
    }
    v = over.get(key, default)
    return cast(v) if cast and v is not None else v


def install():
    """Registers the stand-in modules, once per worker process."""
    pkg = dict(__path__=[])
    module("kinto_http", Client=Client, KintoException=KintoException, BasicAuth=object, **pkg)
    module("kinto_http.exceptions", KintoException=KintoException, BucketNotFound=BucketNotFound, CollectionNotFound=CollectionNotFound)
    module("kinto_http.patch_type", BasicPatch=BasicPatch, MergePatch=BasicPatch)
    auth = module("requests.auth", HTTPBasicAuth=lambda u, p: (u, p))
    exc = module("requests.exceptions", RequestException=RequestException, ConnectionError=ReqConnectionError, Timeout=ReqTimeout, HTTPError=HTTPError, JSONDecodeError=json.JSONDecodeError)
    module("requests", get=req_get, post=req_post, auth=auth, exceptions=exc, Response=Response, RequestException=RequestException, ConnectionError=ReqConnectionError, Timeout=ReqTimeout, HTTPError=HTTPError, **pkg)
    module("google", **pkg)
    gexc = module("google.api_core.exceptions", GoogleAPICallError=GoogleAPICallError, GoogleAPIError=GoogleAPICallError, NotFound=NotFound, ServiceUnavailable=ServiceUnavailable, InternalServerError=InternalServerError, TooManyRequests=TooManyRequests, PreconditionFailed=PreconditionFailed, RetryError=RetryError)
    pit = module("google.api_core.page_iterator", HTTPIterator=HTTPIterator)
    ret = module("google.api_core.retry", Retry=Retry, if_transient_error=transient)
    module("google.api_core", exceptions=gexc, page_iterator=pit, retry=ret, **pkg)
    blobm = module("google.cloud.storage.blob", Blob=Blob)
    st = module("google.cloud.storage", Client=StorageClient, Bucket=Bucket, Blob=Blob, blob=blobm, **pkg)
    module("google.cloud", storage=st, **pkg)
    sys.modules["google"].cloud = sys.modules["google.cloud"]
    sys.modules["google"].api_core = sys.modules["google.api_core"]
    module("decouple", config=config)

    def log(level):
        def f(msg, *args):
            a = current()
            if a is not None:
                try:
                    line = str(msg) % args if args else str(msg)
                except Exception:
                    line = str(msg)
                a.log.append(level + " " + line[:200])
                if SIM.keep_trace:
                    SIM.trace.append("%.3f   %s: %s %s" % (SIM.now - SIM.start, a.name, level, line[:300]))

        return f

    module("glog", setLevel=lambda *a: None, info=log("I"), debug=log("D"), warning=log("W"), warn=log("W"), error=log("E"), exception=log("E"), fatal=log("F"))
    module("statsd", StatsClient=lambda *a, **k: types.SimpleNamespace(incr=lambda *a, **k: None, gauge=lambda *a, **k: None))
    enc = types.SimpleNamespace(DER="DER", PEM="PEM")
    fmt = types.SimpleNamespace(SubjectPublicKeyInfo="SPKI", PKCS1="PKCS1")
    x = module("cryptography.x509", Certificate=x509stub.Certificate, load_pem_x509_certificate=x509stub.load_pem_x509_certificate, load_der_x509_certificate=x509stub.load_der_x509_certificate)
    module("cryptography", x509=x, **pkg)
    module("cryptography.hazmat", **pkg)
    module("cryptography.hazmat.backends", default_backend=lambda: None)
    module("cryptography.hazmat.primitives", **pkg)
    module("cryptography.hazmat.primitives.serialization", Encoding=enc, PublicFormat=fmt)
