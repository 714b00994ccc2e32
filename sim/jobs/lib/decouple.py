import os

_none = object()


class UndefinedValueError(Exception):
    pass


def config(key, default=_none, cast=None):
    v = os.environ.get(key, default)
    if v is _none:
        raise UndefinedValueError(key)
    if cast is bool and isinstance(v, str):
        return v.lower() in ("1", "true", "yes", "on")
    return cast(v) if cast else v
