import sys

INFO = DEBUG = WARNING = ERROR = FATAL = 0


def _say(msg, *args):
    print(str(msg) % args if args else msg, file=sys.stderr)


info = debug = warning = warn = error = fatal = exception = _say


def setLevel(*a):
    pass
