"""The real requests package, as pip carries it (no other copy is installed here)."""
from pip._vendor.requests import *  # noqa: F401,F403
from pip._vendor.requests import exceptions, get, Session  # noqa: F401
