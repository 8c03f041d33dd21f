import functools
from lmatools import missing_names


def coroutine(func):
    """Create the generator and advance it to its first yield."""
    @functools.wraps(func)
    def start(*args, **kwargs):
        cr = func(*args, **kwargs)
        next(cr)
        return cr
    return start


@coroutine
def broadcast(targets):
    while True:
        stuff = (yield)
        for target in targets:
            target.send(stuff)
        del stuff


__getattr__ = missing_names(__name__)
