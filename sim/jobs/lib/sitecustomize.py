import time

_n = [0]


def _sleep(s):
    _n[0] += 1
    if _n[0] > 5000:
        raise SystemExit("sleeps without end")


time.sleep = _sleep
