from . import auth, exceptions
from .exceptions import ConnectionError, HTTPError, RequestException, Timeout
