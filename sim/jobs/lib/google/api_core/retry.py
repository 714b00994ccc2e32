import functools

import requests

from . import exceptions


def if_transient_error(e):
    return isinstance(e, (exceptions.InternalServerError, exceptions.TooManyRequests, exceptions.ServiceUnavailable, requests.exceptions.ConnectionError))


def if_exception_type(*types):
    return lambda e: isinstance(e, types)


class Retry:
    """No time passes: the delays are only added up."""

    def __init__(self, predicate=if_transient_error, initial=1.0, maximum=60.0, multiplier=2.0, timeout=120.0, deadline=None, on_error=None, **k):
        self.predicate, self.initial, self.maximum, self.multiplier = predicate, initial, maximum, multiplier
        self.timeout = timeout if deadline is None else deadline

    def __call__(self, fn, on_error=None):
        @functools.wraps(fn)
        def wrapped(*a, **k):
            slept, delay = 0.0, self.initial
            while True:
                try:
                    return fn(*a, **k)
                except Exception as e:
                    if not self.predicate(e):
                        raise
                    if self.timeout is not None and slept + delay > self.timeout:
                        raise exceptions.RetryError("Timeout of %.1fs exceeded" % self.timeout, e) from e
                    slept += delay
                    delay = min(delay * self.multiplier, self.maximum)

        return wrapped

    def with_deadline(self, deadline):
        return Retry(self.predicate, self.initial, self.maximum, self.multiplier, deadline)

    with_timeout = with_deadline
