"""Coroutine plumbing."""


def coroutine(func):
    """Advance a generator to its first yield when it is created."""
    def start(*args, **kwargs):
        cr = func(*args, **kwargs)
        next(cr)
        return cr
    start.__name__ = func.__name__
    start.__doc__ = func.__doc__
    return start


@coroutine
def broadcast(targets):
    """Send whatever arrives to each of the targets in order."""
    try:
        while True:
            stuff = (yield)
            for target in targets:
                target.send(stuff)
    finally:
        for target in targets:
            target.close()
