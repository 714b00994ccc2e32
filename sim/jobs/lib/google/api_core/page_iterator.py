import simdisk
from google.cloud import storage


class HTTPIterator:
    def __init__(self, client=None, api_request=None, path=None, items_key=None, item_to_value=None, extra_params=None, **k):
        self.args = (path, items_key, item_to_value or (lambda i, x: x), extra_params or {})

    def __iter__(self):
        path, key, value, extra = self.args
        bucket = path.split("/")[2]

        def f():
            storage.exists(bucket)
            pre, out = extra.get("prefix", ""), []
            for n in simdisk.names(bucket):
                if not n.startswith(pre):
                    continue
                if "/" in n[len(pre) :] and extra.get("delimiter") == "/":
                    d = pre + n[len(pre) :].split("/")[0] + "/"
                    if key == "prefixes" and d not in out:
                        out.append(d)
                elif key == "items":
                    out.append({"name": n})
            return out

        return iter([value(self, x) for x in simdisk.op("list", f, storage.error)])
